#include "common.hpp"
#include "rehuel.hpp"

using arma::mat;
using arma::vec;

// evaluations made by the library; the integrators copy the problem, so the log is shared
struct Log {
	std::vector<double> t;
	std::vector<vec> y;
	std::vector<double> jt;
	std::vector<vec> jy;
	void clear() { t.clear(); y.clear(); jt.clear(); jy.clear(); }
};
static Log LOG;

struct Ode {
	typedef mat jac_type;
	int n = 1, kind = 0;
	mat A;
	vec b, w;
	double tbad = INFINITY, big = 1e4;
	bool log = true;
	vec F(double t, const vec &y) const
	{
		vec r = A * y + b * std::sin(1.3 * t + 0.2);
		if (kind == 1) r += 0.3 * arma::sin(w % y + t);
		if (kind == 2) r += b * t * t;
		if (t > tbad) r = big * (1.0 + y % y);
		return r;
	}
	mat D(double t, const vec &y) const
	{
		mat r = A;
		if (kind == 1) r += 0.3 * arma::diagmat(w % arma::cos(w % y + t));
		if (t > tbad) r = big * 2 * arma::diagmat(y);
		return r;
	}
	vec fun(double t, const vec &y)
	{
		if (log) { LOG.t.push_back(t); LOG.y.push_back(y); }
		return F(t, y);
	}
	mat jac(double t, const vec &y)
	{
		if (log) { LOG.jt.push_back(t); LOG.jy.push_back(y); }
		return D(t, y);
	}
};

static Ode make(H &h)
{
	Ode o;
	o.n = h.i(0, 7) ? h.i(1, 4) : h.i(5, 8);
	o.kind = h.i(0, 2);
	o.A.set_size(o.n, o.n);
	o.b.set_size(o.n);
	o.w.set_size(o.n);
	for (int i = 0; i < o.n; ++i) {
		o.b(i) = h.u(-1, 1);
		o.w(i) = h.u(-1, 1);
		for (int j = 0; j < o.n; ++j) o.A(i, j) = h.u(-1, 1);
	}
	return o;
}

static bool veq(const vec &a, const vec &b, double tol)
{
	if (a.n_elem != b.n_elem) return false;
	for (arma::uword i = 0; i < a.n_elem; ++i)
		if (!near(a(i), b(i), tol)) return false;
	return true;
}

static std::vector<double> gauss(std::vector<std::vector<double>> M)
{
	int n = M.size();
	for (int i = 0; i < n; ++i) {
		int p = i;
		for (int r = i; r < n; ++r)
			if (std::fabs(M[r][i]) > std::fabs(M[p][i])) p = r;
		std::swap(M[i], M[p]);
		double d = M[i][i];
		for (auto &x : M[i]) x /= d;
		for (int r = 0; r < n; ++r) {
			if (r == i) continue;
			double f = M[r][i];
			for (int c = 0; c <= n; ++c) M[r][c] -= f * M[i][c];
		}
	}
	std::vector<double> x;
	for (auto &r : M) x.push_back(r[n]);
	return x;
}

static double ipow(double a, int q) { return q == 0 ? 1 : std::pow(a, q); }

static std::vector<double> ab(int k)
{
	std::vector<std::vector<double>> M(k);
	for (int q = 0; q < k; ++q) {
		for (int i = 0; i < k; ++i) M[q].push_back(ipow(-i, q));
		M[q].push_back(1.0 / (q + 1));
	}
	return gauss(M);
}

static std::vector<double> bdfc(int k)
{
	std::vector<std::vector<double>> M(k + 1);
	for (int q = 0; q <= k; ++q) {
		for (int i = 0; i < k; ++i) M[q].push_back(ipow(-i, q));
		M[q].push_back(-q);
		M[q].push_back(-1);
	}
	return gauss(M);
}

static vec rk4(const Ode &o, double t, vec y, double h, int n)
{
	h /= n;
	for (int i = 0; i < n; ++i) {
		vec k1 = o.F(t, y), k2 = o.F(t + h / 2, y + h / 2 * k1), k3 = o.F(t + h / 2, y + h / 2 * k2), k4 = o.F(t + h, y + h * k3);
		y += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
		t += h;
	}
	return y;
}

static void one(H &h)
{
	Ode o = make(h);
	bool bdf = h.id == "C24" || (h.id == "C25" && h.coin());
	int hi = bdf ? 6 : 5;
	int k = h.i(1, hi);
	static const int odd[] = {0, -1, -7, 100, INT_MIN, INT_MAX};
	bool bad = h.id != "C25" && h.i(0, 9) == 0;
	if (bad) {
		int q = h.i(0, 7);
		k = q < 6 ? odd[q] : hi + q - 5;
	}
	double t0 = h.i(0, 2) ? h.u(-2, 2) : 0.0;
	double dt = h.coin() ? h.u(0.01, 0.12) : 1.0 / (1 << h.i(3, 6));
	int steps = h.i(0, 3) ? h.i(1, 25) : h.i(1, 4);
	double t1 = t0 + dt * (h.coin() ? steps : steps + h.u(-0.9, 0.9));
	if (t1 <= t0) t1 = t0 + 0.4 * dt;
	vec y0(o.n);
	for (auto &x : y0) x = h.u(-1.5, 1.5);
	multistep::solver_options so;
	so.order = k;
	double hh = t0 + dt > t1 ? t1 - t0 : dt;
	bool failing = bdf && !bad && h.id == "C24" && h.i(0, 4) == 0;
	int nb = bdf ? k + 1 : k;
	if (failing) {
		o.tbad = t0 + hh * (nb - 1 + h.i(0, 3) + 0.5);
		o.big = 50 / hh;
	}
	LOG.clear();
	vec y00 = y0;
	basic_output s;
	if (bdf) s = multistep::bdf(o, t0, t1, y0, so, dt);
	else s = multistep::adams_bashforth(o, t0, t1, y0, so, dt);
	++h.cases;
	char what[200];
	snprintf(what, sizeof what, "%s order %d, n=%d kind=%d t0=%.17g t1=%.17g dt=%.17g", bdf ? "bdf" : "adams_bashforth", k, o.n,
	         o.kind, t0, t1, dt);
	if (bad) {
		if (s.status != GENERAL_ERROR || s.t_vals.size() || s.y_vals.size())
			h.fail("%s: status %d with %zu points", what, s.status, s.t_vals.size());
		return;
	}
	size_t n = s.t_vals.size();
	if (n != s.y_vals.size()) return h.fail("%s: %zu times, %zu states", what, n, s.y_vals.size());
	if (n < (size_t)k) return h.fail("%s: only %zu points", what, n);
	for (size_t i = 0; i < n; ++i)
		if (s.y_vals[i].n_elem != (arma::uword)o.n) return h.fail("%s: state %zu has %d entries", what, i, (int)s.y_vals[i].n_elem);
	if (h.id == "C25") {
		if (s.t_vals[0] != t0 || !veq(s.y_vals[0], y0, 0)) h.fail("%s: starts at (%.17g, %.17g)", what, s.t_vals[0], s.y_vals[0](0));
		if (s.status != SUCCESS) h.fail("%s: status %d", what, s.status);
		for (size_t i = 1; i < n; ++i)
			if (!near(s.t_vals[i], s.t_vals[i - 1] + hh, 1e-12))
				return h.fail("%s: time %zu is %.17g after %.17g", what, i, s.t_vals[i], s.t_vals[i - 1]);
		if (s.t_vals[n - 1] < t1) h.fail("%s: ends at %.17g", what, s.t_vals[n - 1]);
		if (n > (size_t)nb && s.t_vals[n - 2] >= t1) h.fail("%s: goes on at %.17g", what, s.t_vals[n - 2]);
		for (int i = 1; i < k && i < (int)n; ++i) {
			vec e = rk4(o, s.t_vals[i - 1], s.y_vals[i - 1], hh, 40);
			if (!veq(s.y_vals[i], e, 2e-4))
				return h.fail("%s: start-up point %d is off by %g", what, i, arma::norm(s.y_vals[i] - e));
		}
		return;
	}
	if (!bdf) {
		auto c = ab(k);
		// from the first point that has enough predecessors and is not a start-up point
		for (size_t m = k - 1; m + 1 < n; ++m) {
			vec e = s.y_vals[m];
			for (int i = 0; i < k; ++i) e += hh * c[i] * o.F(s.t_vals[m - i], s.y_vals[m - i]);
			if (!veq(s.y_vals[m + 1], e, 1e-8))
				return h.fail("%s: point %zu is off by %g", what, m + 1, arma::norm(s.y_vals[m + 1] - e));
		}
		return;
	}
	auto c = bdfc(k);
	double beta = c[k];
	size_t at = 0;
	// skip what the start-up evaluated
	vec cp;
	bool stopped = s.status != SUCCESS;
	for (size_t m = nb - 1; m + 1 < n + (stopped ? 1 : 0); ++m) {
		double tn = s.t_vals[m] + hh;
		vec hist(o.n, arma::fill::zeros);
		for (int i = 0; i < k; ++i) hist += c[i] * s.y_vals[m - i];
		auto G = [&](const vec &y) { return vec(y + hist - beta * hh * o.F(tn, y)); };
		if (m + 1 < n) {
			vec r = G(s.y_vals[m + 1]);
			if (arma::norm(r) > 1e-7 * (1 + arma::norm(s.y_vals[m + 1])))
				return h.fail("%s: point %zu leaves a residual of %g", what, m + 1, arma::norm(r));
		}
		// iterates of this solve, as evaluated
		if (m == size_t(nb - 1)) {
			for (at = LOG.t.size(); at > 0; --at)
				if (LOG.t[at - 1] < tn - 0.3 * hh) break;
			// the start-up ends exactly where the first step begins
			while (at < LOG.t.size() && !near(LOG.t[at], tn, 1e-10)) ++at;
		}
		size_t b = at;
		while (b < LOG.t.size() && near(LOG.t[b], tn, 1e-10)) ++b;
		if (at == b) return h.fail("%s: step %zu is not evaluated at its time", what, m + 1);
		if (!veq(LOG.y[at], s.y_vals[m], 1e-12)) return h.fail("%s: step %zu starts the iteration elsewhere", what, m + 1);
		vec x0 = LOG.y[at];
		mat J = arma::eye(o.n, o.n) - beta * hh * o.D(tn, x0);
		if (b > at + 1 && !failing) {
			vec x1 = LOG.y[at + 1];
			vec d = x1 - x0, g = G(x0);
			if (arma::norm(J * d + g) > 1e-6 * (arma::norm(g) + 1e-3))
				return h.fail("%s: step %zu: the first update does not solve with I - beta dt J", what, m + 1);
		}
		at = b;
	}
	if (stopped) {
		if (!failing) return h.fail("%s: status %d", what, s.status);
		if (s.status != INTERNAL_SOLVE_FAILURE) h.fail("%s: a failed solve gives status %d", what, s.status);
		if (s.t_vals[n - 1] > o.tbad + 1e-9) h.fail("%s: a point is recorded at %.17g though no solution exists", what, s.t_vals[n - 1]);
	} else {
		if (s.t_vals[n - 1] > o.tbad + 1e-9) h.fail("%s: success past %.17g where no solution exists", what, o.tbad);
	}
}

int run(H &h)
{
	std::cout.setstate(std::ios::failbit);
	std::clog.setstate(std::ios::failbit);
	while (h.more()) {
		Watch w(40, "the integration does not come back");
		one(h);
	}
	return 0;
}
