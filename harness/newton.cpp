#include "common.hpp"
#include "rehuel.hpp"

using arma::mat;
using arma::vec;

// a random smooth system that records where it is evaluated
struct Sys {
	typedef mat jac_type;
	int kind = 0, n = 1;
	mat A;
	vec b, w;
	std::vector<vec> X, J;
	vec F(const vec &x) const
	{
		if (kind == 0) return A * x - b;
		if (kind == 1) return A * x + 0.3 * arma::sin(w % x) - b;
		if (kind == 2) return A * x + 0.2 * x % x % x - b;
		if (kind == 4) return arma::exp(w % x) - b;           // can overflow
		if (kind == 5) return vec(n, arma::fill::zeros) + b;  // singular
		return b;
	}
	mat D(const vec &x) const
	{
		if (kind == 0) return A;
		if (kind == 1) return A + 0.3 * arma::diagmat(w % arma::cos(w % x));
		if (kind == 2) return A + 0.6 * arma::diagmat(x % x);
		if (kind == 4) return arma::diagmat(w % arma::exp(w % x));
		if (kind == 5) return mat(n, n, arma::fill::zeros) + arma::datum::nan;
		return mat(n, n, arma::fill::zeros);
	}
	vec fun(const vec &x) { X.push_back(x); return F(x); }
	mat jac(const vec &x) { J.push_back(x); return D(x); }
};

static Sys make(H &h, bool wild)
{
	Sys s;
	s.n = h.i(0, 7) ? h.i(1, 5) : h.i(6, 9);
	s.kind = h.i(0, wild ? 5 : 2);
	if (s.kind == 3) s.kind = 1;
	s.A.set_size(s.n, s.n);
	s.b.set_size(s.n);
	s.w.set_size(s.n);
	for (int i = 0; i < s.n; ++i) {
		s.b(i) = h.u(-2, 2);
		s.w(i) = h.u(-1, 1);
		for (int j = 0; j < s.n; ++j) s.A(i, j) = h.u(-1, 1);
		s.A(i, i) += h.coin() ? 3 : -3;
	}
	if (s.n > 1 && s.kind != 1 && h.i(0, 3) == 0) {
		// a zero on the diagonal of a regular matrix
		s.A.swap_rows(0, 1);
		if (s.kind == 0) s.A(0, 0) = 0;
		if (s.kind == 0 && h.coin()) s.A(1, 1) = 0;
	}
	if (s.kind == 4) s.b = arma::abs(s.b) + 0.5;
	if (s.kind == 4) s.w = arma::abs(s.w) + 0.2;
	return s;
}

// what is printed while it lives
struct Cap {
	std::ostringstream o, e;
	std::streambuf *a, *b;
	Cap() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) { std::cerr.clear(); }
	~Cap() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cerr.setstate(std::ios::failbit); }
};

static bool bits(const vec &a, const vec &b)
{
	return a.n_elem == b.n_elem && (a.n_elem == 0 || !memcmp(a.memptr(), b.memptr(), sizeof(double) * a.n_elem));
}
static bool vnear(const vec &a, const vec &b, double tol)
{
	if (a.n_elem != b.n_elem) return false;
	return arma::norm(a - b, "inf") <= tol * (1 + arma::norm(b, "inf"));
}

static void newton_case(H &h)
{
	Sys s = make(h, h.i(0, 2) == 0);
	vec x0(s.n);
	for (int i = 0; i < s.n; ++i) x0(i) = h.u(-2, 2);
	if (s.kind == 4 && h.coin()) x0 *= -40;
	newton::options o;
	bool refresh = h.coin(), pre = h.coin(), lim = h.coin(), quiet = h.coin(), cap = h.i(0, 2) == 0;
	o.time_internals = h.coin();
	o.refresh_jac = refresh ? h.i(1, 12) : h.i(-1, 0);
	o.precondition = pre;
	o.limit_step = lim;
	o.max_step = cap ? h.u(0.01, 1.5) : (h.coin() ? -1 : 0);
	o.dx_delta = std::pow(10.0, h.u(-11, -1));
	o.tol = std::pow(10.0, h.u(-11, -1));
	int mi[] = {0, 1, 2, 3, 7, 30, 200, -1};
	o.maxit = mi[h.i(0, 7)];
	newton::status st;
	st.conv_status = h.i(0, 4);
	st.iters = h.i(0, 9);
	st.res = 17;
	vec r;
	std::string out;
	bool threw = false;
	{
		Cap c;
		try {
			r = newton::newton_iterate(s, x0, o, st, quiet);
		} catch (std::exception &) {
			threw = true;
		}
		out = c.o.str() + c.e.str();
	}
	++h.cases;
	char id[300];
	snprintf(id, 300, "kind %d n %d refresh %d precondition %d timing %d limit %d quiet %d max_step %g maxit %d dx %g x0 %.17g", s.kind, s.n,
	         o.refresh_jac, pre, o.time_internals, lim, quiet, o.max_step, o.maxit, o.dx_delta, x0(0));
	if (threw) return h.fail("an exception left the solver: %s", id);
	int n = (int)s.X.size() - 1;
	if (n < 0) return h.fail("the system was never evaluated: %s", id);
	if (!bits(s.X[0], x0)) return h.fail("the first evaluation is not at the guess: %s", id);
	vec Fl = s.F(s.X[n]);
	double res = arma::norm(Fl);
	bool linfail = s.kind == 5;
	if (st.iters != n) h.fail("%d updates but iters = %d: %s", n, st.iters, id);
	if (n > std::max(o.maxit, 0)) h.fail("%d updates: %s", n, id);
	if (st.conv_status != newton::SUCCESS && st.conv_status != newton::MAXIT_EXCEEDED && st.conv_status != newton::GENERIC_ERROR)
		h.fail("status %d: %s", st.conv_status, id);
	if (!(linfail && o.maxit > 0) && std::isfinite(res) && !near(st.res, res, 1e-10)) h.fail("residual %.17g but |F| = %.17g: %s", st.res, res, id);
	if (!std::isfinite(st.res) && st.conv_status == newton::SUCCESS) h.fail("success with residual %g: %s", st.res, id);
	if (linfail && o.maxit > 0 && st.conv_status != newton::GENERIC_ERROR) h.fail("status %d after a failed linear solve: %s", st.conv_status, id);
	if (st.conv_status == newton::SUCCESS) {
		if (!bits(r, s.X[n])) h.fail("success but not the last iterate: %s", id);
		if (n < 1) h.fail("success without an update: %s", id);
	} else if (!bits(r, x0)) {
		h.fail("failure but not the guess is returned: %s", id);
	}
	if (st.conv_status == newton::MAXIT_EXCEEDED && n < o.maxit) h.fail("out of iterations after %d updates: %s", n, id);
	if (st.conv_status == newton::GENERIC_ERROR && std::isfinite(res) && !linfail && st.res == res) {
		bool ok = false;
		for (auto &x : s.X) ok = ok || !x.is_finite() || !s.F(x).is_finite() || !s.D(x).is_finite() || arma::rcond(s.D(x)) < 1e-14;
		if (!ok) h.fail("generic failure with residual %g: %s", st.res, id);
	}
	if (quiet && !linfail && st.conv_status != newton::GENERIC_ERROR && !out.empty()) {
		// the linear algebra library may warn about singular systems
		bool reg = out.find("warning") == std::string::npos;
		for (auto &x : s.X) reg = reg && s.D(x).is_finite() && arma::rcond(s.D(x)) > 1e-10;
		if (reg) h.fail("prints when quiet: %s", id);
	}
	if (!quiet && out.find("Newton") == std::string::npos) h.fail("prints nothing when not quiet: %s", id);
	// Jacobian evaluations
	if (refresh) {
		for (int k = 0; k < n; ++k) {
			bool seen = false;
			for (auto &x : s.J) seen = seen || bits(x, s.X[k]);
			if (!seen) { h.fail("no Jacobian at iterate %d: %s", k, id); break; }
		}
		for (auto &x : s.J) {
			bool seen = false;
			for (auto &y : s.X) seen = seen || bits(x, y) || !x.is_finite();
			if (!seen) { h.fail("a Jacobian away from the iterates: %s", id); break; }
		}
	} else if (s.J.size() != 1 || !bits(s.J[0], x0)) {
		h.fail("%d Jacobians with refreshing off: %s", (int)s.J.size(), id);
	}
	// the scheme
	for (int k = 0; k < n; ++k) {
		vec x = s.X[k], F = s.F(x);
		mat J = s.D(refresh ? x : x0);
		if (!J.is_finite() || !F.is_finite() || arma::norm(F) > 1e6 || arma::rcond(J) < 1e-7) return;
		double lam = lim ? 1 / (1 + arma::dot(F, F)) : 1;
		vec d = -arma::solve(J, F);
		double len = lam * arma::norm(d);
		if (cap && len > o.max_step) d *= o.max_step / len;
		if (!vnear(s.X[k + 1] - x, lam * d, 1e-7)) {
			h.fail("update %d is (%g,...) but the scheme gives (%g,...): %s", k, s.X[k + 1](0) - x(0), lam * d(0), id);
			return;
		}
		if (cap && arma::norm(s.X[k + 1] - x) > o.max_step * (1 + 1e-9)) h.fail("update %d longer than allowed: %s", k, id);
		if (k == n - 1 && st.conv_status == newton::SUCCESS && arma::norm(d, "inf") >= o.dx_delta * (1 + 1e-6) + 1e-13)
			h.fail("success but the last direction has size %g: %s", arma::norm(d, "inf"), id);
	}
}

static void broyden_case(H &h)
{
	Sys s = make(h, false);
	if (h.coin()) {
		// near the identity, so that it converges
		s.A = 0.15 * s.A / (1 + arma::norm(s.A)) + arma::eye(s.n, s.n) * (h.coin() ? 1 : 0.6);
		if (h.coin()) s.A *= -1;
	}
	vec x0(s.n);
	for (int i = 0; i < s.n; ++i) x0(i) = h.u(-2, 2);
	newton::options o;
	bool quiet = h.coin(), cap = h.i(0, 2) == 0;
	o.max_step = cap ? h.u(0.01, 1.5) : (h.coin() ? -1 : 0);
	o.dx_delta = std::pow(10.0, h.u(-11, -1));
	o.tol = std::pow(10.0, h.u(-11, -1));
	if (h.i(0, 3) == 0) o.tol = 1e-12;
	if (h.i(0, 3) == 0) o.dx_delta = 1e-14;
	int mi[] = {0, 1, 2, 3, 7, 30, 200, -1};
	o.maxit = mi[h.i(0, 7)];
	newton::status st;
	st.conv_status = h.i(0, 4);
	st.iters = h.i(0, 9);
	vec r;
	std::string out;
	{
		Cap c;
		r = newton::broyden_iterate(s, x0, o, st, quiet);
		out = c.o.str() + c.e.str();
	}
	++h.cases;
	char id[300];
	snprintf(id, 300, "kind %d n %d quiet %d max_step %g maxit %d dx %g tol %g x0 %.17g", s.kind, s.n, quiet, o.max_step, o.maxit,
	         o.dx_delta, o.tol, x0(0));
	int n = (int)s.X.size() - 1;
	if (n < 0) return h.fail("the system was never evaluated: %s", id);
	if (!bits(s.X[0], x0)) return h.fail("the first evaluation is not at the guess: %s", id);
	double res = arma::norm(s.F(s.X[n]));
	if (n > std::max(o.maxit - 1, 0)) h.fail("%d updates: %s", n, id);
	if (st.conv_status != newton::SUCCESS && st.conv_status != newton::MAXIT_EXCEEDED) h.fail("status %d: %s", st.conv_status, id);
	if (std::isfinite(res) && !near(st.res, res, 1e-10)) h.fail("residual %.17g but |F| = %.17g: %s", st.res, res, id);
	if (!bits(r, s.X[n])) h.fail("not the last point is returned: %s", id);
	if (quiet && !out.empty()) h.fail("prints when quiet: %s", id);
	if (st.conv_status == newton::SUCCESS) {
		if (n < 1) h.fail("success without an update: %s", id);
		else if (!(arma::norm(s.X[n] - s.X[n - 1], "inf") < o.dx_delta * (1 + 1e-6) + 1e-13 || res * res < o.tol * o.tol * (1 + 1e-9)))
			h.fail("success with a step of %g and a residual of %g: %s", arma::norm(s.X[n] - s.X[n - 1], "inf"), res, id);
	} else if (st.conv_status == newton::MAXIT_EXCEEDED && n < o.maxit - 1) {
		h.fail("out of iterations after %d updates: %s", n, id);
	}
	mat B = arma::eye(s.n, s.n);
	for (int k = 0; k < n; ++k) {
		vec x = s.X[k], F = s.F(x);
		if (!F.is_finite() || !B.is_finite() || arma::norm(F) > 1e6 || arma::norm(B) > 1e5) return;
		vec d = -B * F / std::sqrt(1 + arma::dot(F, F));
		double len = arma::norm(d);
		if (cap && len > o.max_step) d *= o.max_step / len;
		if (!vnear(s.X[k + 1] - x, d, 1e-6)) {
			h.fail("step %d is (%g,...) but the scheme gives (%g,...): %s", k, s.X[k + 1](0) - x(0), d(0), id);
			return;
		}
		vec dx = s.X[k + 1] - x, df = s.F(s.X[k + 1]) - F;
		double den = arma::as_scalar(dx.t() * B * df);
		if (std::fabs(den) < 1e-4 * arma::norm(dx) * arma::norm(B * df) || arma::norm(df) < 1e-6 || arma::norm(dx) < 1e-6) return;
		B += (dx - B * df) * (dx.t() * B) / den;
	}
}

static void jacobi_case(H &h)
{
	Sys s = make(h, false);
	vec y(s.n);
	for (int i = 0; i < s.n; ++i) y(i) = h.u(-2, 2);
	double st = std::pow(10.0, h.u(-5, 0.3)) * (h.i(0, 3) ? 1 : -1);
	vec y1 = y;
	mat A = newton::approx_jacobi_matrix(y1, s, st);
	++h.cases;
	if (!bits(y, y1)) h.fail("the point was changed");
	if ((int)A.n_rows != s.n || (int)A.n_cols != s.n) return h.fail("%dx%d matrix for n=%d", (int)A.n_rows, (int)A.n_cols, s.n);
	for (int j = 0; j < s.n; ++j) {
		vec p = y, m = y;
		p(j) += st;
		m(j) -= st;
		vec d = (s.F(p) - s.F(m)) / (2 * st);
		if (!vnear(A.col(j), d, 1e-13 / std::fabs(st) + 1e-10)) {
			h.fail("column %d of %d with step %g: %.15g,... instead of %.15g,...", j, s.n, st, A(0, j), d(0));
			return;
		}
	}
	{
		// entries of every magnitude
		struct V : Sys {
			vec sc;
			vec fun(const vec &x) { return sc % F(x); }
		} w;
		(Sys &)w = s;
		w.sc.set_size(s.n);
		for (int i = 0; i < s.n; ++i) w.sc(i) = std::pow(10.0, h.u(-16, 8));
		y1 = y;
		mat B = newton::approx_jacobi_matrix(y1, w, st);
		for (int j = 0; j < s.n; ++j) {
			vec p = y, m = y;
			p(j) += st;
			m(j) -= st;
			vec a = w.fun(p), b = w.fun(m), d = (a - b) / (2 * st);
			for (int i = 0; i < s.n; ++i)
				if (std::fabs(B(i, j) - d(i)) > 1e-9 * std::fabs(d(i)) + 1e-14 * (std::fabs(a(i)) + std::fabs(b(i)) + 20 * w.sc(i)) / std::fabs(st)) {
					h.fail("entry (%d,%d) of %d with step %g: %.15g instead of %.15g", i, j, s.n, st, B(i, j), d(i));
					return;
				}
		}
	}
	if (!h.known("verify-always-true")) {
		// a system whose Jacobian is wrong in one entry
		struct W : Sys {
			int r, c;
			mat jac(const vec &x) { mat m = D(x); m(r, c) += 0.5; return m; }
		} w;
		(Sys &)w = s;
		w.r = h.i(0, s.n - 1);
		w.c = h.i(0, s.n - 1);
		Cap c;
		if (newton::verify_jacobi_matrix(y, w)) h.fail("a wrong entry (%d,%d) of %d is accepted", w.r, w.c, s.n);
	}
	Sys z = s;
	z.kind = 3;
	Cap c;
	if (!newton::verify_jacobi_matrix(y, z)) h.fail("an exact Jacobian is refused");
	if (!bits(y, y1)) h.fail("the point was changed");
}

int run(H &h)
{
	while (h.more()) {
		if (h.id == "C18" || h.id == "C20") {
			Watch w(20, "the iteration does not come back");
			newton_case(h);
		} else if (h.id == "C19") {
			Watch w(20, "the iteration does not come back");
			broyden_case(h);
		} else if (h.id == "C21") {
			jacobi_case(h);
		} else {
			return 2;
		}
	}
	return 0;
}
