// C01-C11: what the two integrators record is compared with the formulas the
// properties state, evaluated independently on the calls the functor received.
#include "common.hpp"
#include "rehuel.hpp"
#include "irk.hpp"
#include "erk.hpp"

using arma::vec;
using arma::mat;

struct Call { bool jac; double t; vec y; vec f; mat J; };
struct Stop {};

struct Prob {
	typedef mat jac_type;
	int kind, n;
	mat M;
	vec a, b;
	double s;
	long cap;
	std::vector<Call> log;
	size_t nf, nj;

	vec f(double t, const vec &y) const
	{
		vec r(n);
		switch (kind) {
		case 0: r = M*y + a*std::cos(s*t); break;
		case 1: r = arma::sin(M*y + a*(s*t)) + b; break;
		case 2: r = -s*(y - a*std::cos(t)) + 0.1*M*arma::tanh(y); break;
		case 3: r = b; break;
		case 4: for (int i = 0; i < n; ++i) r(i) = y(i)*(1 - y(i)*y(i)) + a(i)*std::sin(s*t*3); break;
		case 5: for (int i = 0; i < n; ++i) r(i) = a(i)*std::exp(-40*(t - 1.3)*(t - 1.3))*s + 0.2*y((i + 1) % n); break;
		default: r = M*y + s*arma::sin(3.0*y) + a*std::cos(s*t); break;
		}
		return r;
	}
	mat j(double t, const vec &y) const
	{
		mat r(n, n);
		r.zeros();
		switch (kind) {
		case 0: r = M; break;
		case 1: r = arma::diagmat(arma::cos(M*y + a*(s*t)))*M; break;
		case 2: { vec th = arma::tanh(y); r = -s*arma::eye(n, n) + 0.1*M*arma::diagmat(1 - th % th); } break;
		case 3: break;
		case 4: for (int i = 0; i < n; ++i) r(i, i) = 1 - 3*y(i)*y(i); break;
		case 5: for (int i = 0; i < n; ++i) r(i, (i + 1) % n) += 0.2; break;
		default: r = M; break; // leaves out the nonlinear part
		}
		return r;
	}
	vec fun(double t, const vec &y)
	{
		++nf;
		if ((long)(nf + nj) > cap) throw Stop();
		Call c;
		c.jac = false; c.t = t; c.y = y; c.f = f(t, y);
		if (!c.f.is_finite() || arma::norm(c.f, "inf") > 1e4) throw Stop();
		log.push_back(c);
		return c.f;
	}
	mat jac(double t, const vec &y)
	{
		++nj;
		if ((long)(nf + nj) > cap) throw Stop();
		Call c;
		c.jac = true; c.t = t; c.y = y; c.J = j(t, y);
		log.push_back(c);
		return c.J;
	}
	void reset() { log.clear(); nf = nj = 0; }
};

struct Setup {
	Prob p;
	double t0, t1, dt;
	vec y0;
	int method;
	bool adaptive, expl;
	double rtol, atol, maxdt;
	long long maxsteps;
	newton::options no;
	int outint;
	bool timing;
	std::string str() const
	{
		char b[400];
		snprintf(b, sizeof b, "[%s method %d problem %d n=%d t0=%.4g t1=%.4g dt=%.4g adaptive=%d rtol=%.2g atol=%.2g "
		         "max_dt=%.3g max_steps=%lld refresh=%d maxit=%d]",
		         expl ? "erk" : "irk", method, p.kind, p.n, t0, t1, dt, adaptive, rtol, atol, maxdt, maxsteps,
		         no.refresh_jac, no.maxit);
		return b;
	}
};

static bool usable(int m)
{
	irk::solver_coeffs sc = irk::get_coefficients(m);
	if (!irk::verify_solver_coeffs(sc)) return false;
	return std::fabs(arma::det(sc.A)) > 1e-12;
}

static Setup setup(H &h, bool expl)
{
	Setup s;
	s.expl = expl;
	s.p.kind = h.i(0, expl ? 5 : 6);
	s.p.n = h.i(0, 7) ? h.i(1, 3) : h.i(4, 8);
	s.p.M = mat(s.p.n, s.p.n);
	s.p.a = vec(s.p.n);
	s.p.b = vec(s.p.n);
	s.y0 = vec(s.p.n);
	for (int i = 0; i < s.p.n; ++i) {
		s.p.a(i) = h.u(-2, 2);
		s.p.b(i) = h.u(-1, 1);
		s.y0(i) = h.u(-2, 2);
		for (int j = 0; j < s.p.n; ++j) s.p.M(i, j) = h.u(-1, 1);
	}
	if (s.p.kind == 0) s.p.M -= arma::eye(s.p.n, s.p.n);
	if (h.i(0, 9) == 0) s.y0.zeros();
	s.p.s = s.p.kind == 2 ? h.u(5, 40) : h.u(0.5, 4);
	s.p.cap = 20000;
	s.p.reset();
	s.t0 = h.i(0, 2) ? h.u(-2, 2) : 0.0;
	s.t1 = s.t0 + (h.i(0, 4) ? h.u(0.3, 4) : h.u(0.001, 0.2));
	s.dt = h.i(0, 3) ? std::pow(10.0, h.u(-3, -0.3)) : std::pow(10.0, h.u(0, 1));
	s.adaptive = h.i(0, 3) > 0;
	if (!s.adaptive) s.dt = std::max(s.dt, 0.01);
	s.rtol = std::pow(10.0, h.u(-8, -2));
	s.atol = s.rtol*std::pow(10.0, h.u(-2, 2));
	s.maxdt = h.i(0, 2) ? (h.coin() ? 0.0 : -1.0) : std::pow(10.0, h.u(-2, 0.5));
	if (h.i(0, 9) == 0) {
		// a short interval
		s.t1 = s.t0 + std::pow(10.0, h.u(-4, -1));
		s.dt = (s.t1 - s.t0)*std::pow(10.0, h.u(-2.5, 0.3));
		s.maxdt = h.i(0, 2) ? (s.t1 - s.t0)*std::pow(10.0, h.u(-2.2, 0.2)) : 0.0;
	}
	s.maxsteps = -1;
	s.outint = 0;
	s.timing = false;
	if (expl) {
		std::vector<int> ms;
		for (const std::string &q : erk::all_method_names()) {
			int m = erk::name_to_method(q);
			if (erk::verify_solver_coeffs(erk::get_coefficients(m))) ms.push_back(m);
		}
		s.method = ms[h.i(0, ms.size() - 1)];
	} else {
		std::vector<int> ms;
		for (const std::string &q : irk::all_method_names())
			if (usable(irk::name_to_method(q))) ms.push_back(irk::name_to_method(q));
		s.method = ms[h.i(0, ms.size() - 1)];
		s.no.maxit = h.i(0, 2) ? h.i(3, 12) : 100;
		s.no.refresh_jac = h.i(0, 2) ? h.i(0, 4) : 10;
		s.no.tol = std::pow(10.0, h.u(-10, -5));
		s.no.dx_delta = std::pow(10.0, h.u(-10, -5));
		if (s.p.kind == 6) s.no.maxit = h.i(3, 8);
		if (h.i(0, 19) == 0) s.no.maxit = h.i(1, 2);
	}
	return s;
}

// what both families' output structs have in common
struct Out {
	bool stopped;
	int status;
	std::vector<double> t, err;
	std::vector<vec> y, st, ee;
	size_t attempt, rejerr, rejnew, nsucc, nf, nj, maxex;
	double frac;
	std::string stream;
};

template <class S> static void common(Out &o, const S &s)
{
	o.status = s.status;
	o.t = s.t_vals; o.y = s.y_vals; o.st = s.stages; o.ee = s.err_est; o.err = s.err;
	o.attempt = s.count.attempt; o.rejerr = s.count.reject_err; o.nf = s.count.fun_evals;
	o.frac = s.accept_frac;
}

static Out go(Setup &s, output_options *oo = nullptr)
{
	Out o;
	o.stopped = false;
	o.status = 0;
	o.frac = 0;
	o.attempt = o.rejerr = o.nf = 0;
	o.rejnew = o.nsucc = o.nj = o.maxex = 0;
	std::ostringstream sink, file;
	output_options def;
	output_options &op = oo ? *oo : def;
	std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
	file.precision(17);
	if (op.write_to_file()) op.set_output_stream(file);
	s.p.reset();
	try {
		if (s.expl) {
			erk::solver_options so;
			so.adaptive_step_size = s.adaptive;
			so.rel_tol = s.rtol; so.abs_tol = s.atol; so.max_dt = s.maxdt; so.max_steps = s.maxsteps;
			so.out_interval = s.outint; so.time_internals = s.timing;
			common(o, erk::odeint(s.p, s.t0, s.t1, s.y0, so, op, s.method, s.dt));
		} else {
			irk::solver_options so;
			so.adaptive_step_size = s.adaptive;
			so.rel_tol = s.rtol; so.abs_tol = s.atol; so.max_dt = s.maxdt; so.max_steps = s.maxsteps;
			so.out_interval = s.outint; so.time_internals = s.timing;
			so.newton_opts = &s.no;
			irk::rk_output r = irk::odeint(s.p, s.t0, s.t1, s.y0, so, op, s.method, s.dt);
			common(o, r);
			o.rejnew = r.count.reject_newton; o.nsucc = r.count.newton_success; o.nj = r.count.jac_evals;
			o.maxex = r.count.newton_maxit_exceed;
		}
	} catch (Stop &) {
		o.stopped = true;
	}
	std::cout.rdbuf(old);
	o.stream = file.str();
	return o;
}

static bool vnear(const vec &a, const vec &b, double tol, double scale = 0)
{
	if (a.n_elem != b.n_elem) return false;
	double d = 0, m = scale;
	for (arma::uword i = 0; i < a.n_elem; ++i) {
		d = std::max(d, std::fabs(a(i) - b(i)));
		m = std::max(m, std::max(std::fabs(a(i)), std::fabs(b(i))));
		if (!(std::fabs(a(i) - b(i)) <= 1e300)) return false;
	}
	return d <= tol*(m + 1e-12);
}
static bool finite(const Out &o)
{
	for (auto &y : o.y)
		if (!y.is_finite() || arma::norm(y, "inf") > 1e6) return false;
	return true;
}
static bool veq(const vec &a, const vec &b)
{
	if (a.n_elem != b.n_elem) return false;
	for (arma::uword i = 0; i < a.n_elem; ++i)
		if (!(a(i) == b(i) || (a(i) != a(i) && b(i) != b(i)))) return false;
	return true;
}

struct Coef { vec b, c, b2; mat A; int q; bool fsal; double gamma; size_t s; int o1, o2; };
static Coef coef(const Setup &s)
{
	Coef k;
	if (s.expl) {
		erk::solver_coeffs c = erk::get_coefficients(s.method);
		k.b = c.b; k.c = c.c; k.b2 = c.b2; k.A = c.A; k.fsal = c.FSAL; k.gamma = 0; k.o1 = c.order; k.o2 = c.order2;
	} else {
		irk::solver_coeffs c = irk::get_coefficients(s.method);
		k.b = c.b; k.c = c.c; k.b2 = c.b2; k.A = c.A; k.fsal = c.FSAL; k.gamma = c.gamma; k.o1 = c.order; k.o2 = c.order2;
	}
	k.q = std::min(k.o1, k.o2);
	k.s = k.b.n_elem;
	return k;
}
static bool adaptive(const Setup &s, const Coef &k) { return s.adaptive && k.b2.n_elem > 0; }

static mat stages(const Setup &s, const Coef &k, double t, const vec &y, double h)
{
	mat K(y.n_elem, k.s);
	for (size_t i = 0; i < k.s; ++i) {
		vec w = y;
		for (size_t j = 0; j < i; ++j) w += h*k.A(i, j)*K.col(j);
		K.col(i) = s.p.f(t + k.c(i)*h, w);
	}
	return K;
}
static double rms(const vec &e, const vec &y, const vec &yn, const Setup &s)
{
	double r = 0;
	for (arma::uword i = 0; i < e.n_elem; ++i) {
		double q = e(i)/(s.atol + s.rtol*std::max(std::fabs(y(i)), std::fabs(yn(i))));
		r += q*q;
	}
	return std::sqrt(r/e.n_elem);
}

// ------------------------------------------------------------ both families
static void shape(H &h, const Setup &s, const Out &o)
{
	if (o.t.empty() || o.t[0] != s.t0 || !veq(o.y[0], s.y0)) {
		h.fail("%s the first recorded point is not the initial one", s.str().c_str());
		return;
	}
	if (o.y.size() != o.t.size() || o.st.size() != o.t.size() || o.ee.size() != o.t.size() || o.err.size() != o.t.size())
		h.fail("%s recorded sequences have lengths t %zu y %zu stages %zu err_est %zu err %zu", s.str().c_str(),
		       o.t.size(), o.y.size(), o.st.size(), o.ee.size(), o.err.size());
	double sl = 4e-15*(std::fabs(s.t0) + std::fabs(s.t1));
	for (size_t k = 1; k < o.t.size(); ++k)
		if (!(o.t[k] > o.t[k - 1])) {
			h.fail("%s recorded times do not increase: t[%zu]=%.17g after %.17g", s.str().c_str(), k, o.t[k], o.t[k - 1]);
			return;
		}
	if (o.t.back() > s.t1 + sl)
		h.fail("%s recorded time %.17g lies beyond t1=%.17g", s.str().c_str(), o.t.back(), s.t1);
	if (o.status == SUCCESS && o.t.back() < s.t1 - sl)
		h.fail("%s reports success but stopped at %.17g", s.str().c_str(), o.t.back());
}

static void counters(H &h, const Setup &s, const Out &o)
{
	size_t acc = o.t.size() - 1;
	if (o.nf != s.p.nf) h.fail("%s reports %zu right-hand sides, made %zu", s.str().c_str(), o.nf, s.p.nf);
	if (!s.expl && o.nj != s.p.nj) h.fail("%s reports %zu Jacobians, made %zu", s.str().c_str(), o.nj, s.p.nj);
	size_t want = acc + o.rejerr + o.rejnew;
	bool ok = o.attempt == want || (o.status != SUCCESS && o.status != ERROR_MAX_STEPS_EXCEEDED && o.attempt == want + 1);
	if (!ok)
		h.fail("%s %zu attempts, but %zu accepted, %zu error and %zu solver rejections", s.str().c_str(), o.attempt, acc,
		       o.rejerr, o.rejnew);
	if (!s.expl) {
		want = o.nsucc + o.rejnew;
		ok = o.attempt == want || (o.status != SUCCESS && o.status != ERROR_MAX_STEPS_EXCEEDED && o.attempt == want + 1);
		if (!ok)
			h.fail("%s %zu attempts, but %zu solver successes and %zu solver rejections", s.str().c_str(), o.attempt,
			       o.nsucc, o.rejnew);
	}
	if (o.status == SUCCESS && o.attempt > 0 && !near(o.frac, double(acc)/o.attempt, 1e-12))
		h.fail("%s accept fraction %.10g is not %zu/%zu", s.str().c_str(), o.frac, acc, o.attempt);
}

static bool prefix(const Out &a, const Out &b, size_t n)
{
	if (a.t.size() != n || b.t.size() < n) return false;
	for (size_t k = 0; k < n; ++k)
		if (a.t[k] != b.t[k] || !veq(a.y[k], b.y[k]) || (k > 0 && !veq(a.st[k], b.st[k])) || !veq(a.ee[k], b.ee[k]) ||
		    a.err[k] != b.err[k])
			return false;
	return true;
}

static void limit(H &h, Setup &s)
{
	s.maxsteps = -1;
	Out full = go(s);
	if (full.stopped || !finite(full) || full.t.size() > 400) return;
	size_t M = full.t.size() - 1;
	std::vector<long long> ns = {0, 1, (long long)M - 1, (long long)M, (long long)M + 1, h.i(0, M + 2), -1, -h.i(2, 100)};
	for (long long N : ns) {
		if (N == (long long)M - 1 && M == 0) continue;
		Setup q = s;
		q.maxsteps = N;
		Out o = go(q);
		if (o.stopped) continue;
		bool cut = N >= 0 && (N < (long long)M || (full.status != SUCCESS && N == (long long)M));
		if (cut) {
			if (o.status != ERROR_MAX_STEPS_EXCEEDED || !prefix(o, full, N + 1))
				h.fail("%s limit %lld of %zu steps: status %d, %zu points", q.str().c_str(), N, M, o.status, o.t.size());
		} else if (o.status != full.status || !prefix(o, full, M + 1))
			h.fail("%s limit %lld does not bind (%zu steps) but status %d instead of %d, %zu points", q.str().c_str(), N, M,
			       o.status, full.status, o.t.size());
	}
}

static void output(H &h, Setup &s)
{
	if (h.i(0, 3) == 0) s.maxsteps = h.i(0, 20);
	Out full = go(s);
	if (full.stopped || full.t.size() > 400) return;
	for (int r = 0; r < 4; ++r) {
		output_options oo;
		oo.output_interval = r == 0 ? 1 : h.i(1, 7);
		std::ostringstream dummy;
		if (h.coin()) oo.disable_store_in_vectors();
		if (r == 0 || h.coin()) oo.set_output_stream(dummy);
		s.outint = h.coin() ? 0 : h.i(1, 3);
		s.timing = h.coin();
		bool store = oo.store_in_vectors(), file = oo.write_to_file();
		size_t iv = oo.output_interval;
		Out o = go(s, &oo);
		std::string w = s.str();
		if (o.stopped) continue;
		if (o.status != full.status || o.attempt != full.attempt || o.rejerr != full.rejerr || o.nf != full.nf ||
		    o.nj != full.nj || o.rejnew != full.rejnew) {
			h.fail("%s interval %zu store %d stream %d: status or counters differ from the plain run", w.c_str(), iv, store, file);
			continue;
		}
		std::vector<size_t> idx(1, 0);
		std::ostringstream want;
		want.precision(17);
		for (size_t k = iv; k < full.t.size(); k += iv) {
			if (store) idx.push_back(k);
			if (file) {
				want << full.t[k];
				for (double x : full.y[k]) want << " " << x;
				want << "\n";
			}
		}
		bool ok = o.t.size() == idx.size() && o.y.size() == idx.size();
		for (size_t k = 0; ok && k < idx.size(); ++k)
			ok = o.t[k] == full.t[idx[k]] && veq(o.y[k], full.y[idx[k]]) && (k == 0 || (o.st.size() > k && veq(o.st[k], full.st[idx[k]])));
		if (!ok) h.fail("%s interval %zu store %d stream %d: stored %zu points, not the wanted %zu", w.c_str(), iv, store, file, o.t.size(), idx.size());
		if (o.stream != want.str())
			h.fail("%s interval %zu store %d stream %d: stream shows '%.80s', wanted '%.80s'", w.c_str(), iv, store, file,
			       o.stream.c_str(), want.str().c_str());
	}
}

// ------------------------------------------------------------ explicit
static void erk_formula(H &h, const Setup &s, const Out &o)
{
	Coef k = coef(s);
	for (size_t n = 1; n < o.t.size() && h.fails < 5; ++n) {
		double hh = o.t[n] - o.t[n - 1];
		if (hh < 1e-7) continue;
		mat K = stages(s, k, o.t[n - 1], o.y[n - 1], hh);
		vec yn = o.y[n - 1] + hh*(K*k.b);
		double tol = 1e-7;
		if (!vnear(yn, o.y[n], tol, 0.1))
			h.fail("%s step %zu: y = %.10g..., formula gives %.10g... (h=%.4g)", s.str().c_str(), n, o.y[n](0), yn(0), hh);
		else if (!vnear(arma::vectorise(K), o.st[n], 1e-6, 0.1))
			h.fail("%s step %zu: recorded stages are not those of the step", s.str().c_str(), n);
	}
}

struct Att { double t, h, E; vec y, yn, ee; bool acc, sure; };
// attempts as the calls show them
static std::vector<Att> erk_attempts(const Setup &s)
{
	std::vector<Att> r;
	Coef k = coef(s);
	bool ad = adaptive(s, k);
	size_t per = k.s - (k.fsal ? 1 : 0), pos = k.fsal ? 1 : 0;
	size_t im = 0;
	for (size_t i = k.fsal ? 1 : 0; i < k.s; ++i)
		if (std::fabs(k.c(i)) > std::fabs(k.c(im))) im = i;
	if (k.c(im) == 0) return r;
	double t = s.t0;
	vec y = s.y0;
	while (pos + per <= s.p.log.size()) {
		Att a;
		double tc = s.p.log[pos + im - (k.fsal ? 1 : 0)].t;
		a.h = (tc - t)/k.c(im);
		a.t = t;
		a.y = y;
		if (std::fabs(a.h) < 1e-7) break;
		mat K = stages(s, k, t, y, a.h);
		bool match = true;
		for (size_t i = 0; i < per; ++i) {
			size_t st = i + (k.fsal ? 1 : 0);
			if (std::fabs(s.p.log[pos + i].t - (t + k.c(st)*a.h)) > 1e-9 ||
			    !vnear(s.p.log[pos + i].f, K.col(st), 1e-5, 1)) match = false;
		}
		a.yn = y + a.h*(K*k.b);
		a.E = 0;
		if (ad) {
			a.ee = a.h*(K*(k.b2 - k.b));
			a.E = rms(a.ee, y, a.yn, s);
		}
		a.acc = !ad || a.E < 1;
		a.sure = match && (!ad || std::fabs(a.E - 1) > 1e-4);
		if (!match || !a.yn.is_finite()) break;
		r.push_back(a);
		if (!a.sure) break;
		if (a.acc) { t += a.h; y = a.yn; }
		pos += per;
	}
	return r;
}

static void erk_accept(H &h, const Setup &s, const Out &o)
{
	Coef k = coef(s);
	bool ad = adaptive(s, k);
	if (!o.stopped)
		for (size_t n = 1; n < o.t.size() && h.fails < 5; ++n) {
			double hh = o.t[n] - o.t[n - 1];
			if (hh < 1e-5) continue;
			if (!ad) {
				double want = o.t[1] - o.t[0];
				if (n + 1 < o.t.size() && !near(hh, want, 1e-9))
					h.fail("%s constant step %zu has size %.12g instead of %.12g", s.str().c_str(), n, hh, want);
				continue;
			}
			mat K = stages(s, k, o.t[n - 1], o.y[n - 1], hh);
			vec ee = hh*(K*(k.b2 - k.b));
			double ks = arma::abs(K).max()*hh*1e-6 + 1e-13;
			if (arma::norm(ee - o.ee[n], "inf") > ks) {
				h.fail("%s step %zu: recorded error vector %.8g is not the embedded difference %.8g", s.str().c_str(), n, o.ee[n](0), ee(0));
				continue;
			}
			double E = rms(o.ee[n], o.y[n - 1], o.y[n], s);
			if (E < 1e-12 ? o.err[n] > 1e-11 : std::fabs(E - o.err[n]) > 1e-7*E)
				h.fail("%s step %zu: recorded error norm %.10g, computed %.10g", s.str().c_str(), n, o.err[n], E);
			if (E >= 1 + 1e-9) h.fail("%s step %zu accepted with error norm %.10g", s.str().c_str(), n, E);
			if (!(o.err[n] > 0)) h.fail("%s step %zu: recorded error norm %.3g is not positive", s.str().c_str(), n, o.err[n]);
		}
	if (!ad && o.rejerr) h.fail("%s %zu rejections without adaptive stepping", s.str().c_str(), o.rejerr);
	// the calls decide which attempts there were
	std::vector<Att> as = erk_attempts(s);
	size_t acc = 0, rej = 0;
	for (size_t i = 0; i < as.size(); ++i) {
		if (!as[i].sure) return;
		if (as[i].acc) {
			++acc;
			if (!o.stopped && (acc >= o.t.size() || !near(o.t[acc], as[i].t + as[i].h, 1e-9))) {
				h.fail("%s attempt %zu at t=%.8g with h=%.4g and error norm %.8g passes but is not recorded", s.str().c_str(), i, as[i].t, as[i].h, as[i].E);
				return;
			}
		} else
			++rej;
	}
	size_t per = k.s - (k.fsal ? 1 : 0);
	if (!o.stopped && as.size() == o.attempt && as.size()*per + (k.fsal ? 1 : 0) == s.p.log.size() && (rej != o.rejerr || acc + 1 != o.t.size()))
		h.fail("%s %zu attempts fail the error test, %zu reported rejected; %zu pass, %zu recorded", s.str().c_str(), rej,
		       o.rejerr, acc, o.t.size() - 1);
}

static double capped(double g, const Setup &s, double room)
{
	if (s.maxdt > 0) g = std::min(g, s.maxdt);
	return std::min(g, room);
}

static void erk_sizes(H &h, const Setup &s, const Out &o)
{
	Coef k = coef(s);
	bool ad = adaptive(s, k);
	double first = capped(s.dt, s, s.t1 - s.t0);
	if (!o.stopped)
		for (size_t n = 1; n < o.t.size(); ++n) {
			double hh = o.t[n] - o.t[n - 1];
			if (s.maxdt > 0 && hh > s.maxdt*(1 + 1e-9) + 1e-13) {
				h.fail("%s step %zu has size %.10g", s.str().c_str(), n, hh);
				return;
			}
		}
	if (!o.stopped && !ad && o.t.size() > 1 && !near(o.t[1] - o.t[0], first, 1e-9)) h.fail("%s first step has size %.8g, not %.8g", s.str().c_str(), o.t[1] - o.t[0], first);
	std::vector<Att> as = erk_attempts(s);
	for (size_t i = 0; i < as.size(); ++i) {
		if (!(as[i].h > 0)) h.fail("%s attempt %zu has size %.8g", s.str().c_str(), i, as[i].h);
		if (s.maxdt > 0 && as[i].h > s.maxdt*(1 + 1e-8) + 1e-12) h.fail("%s attempt %zu has size %.8g", s.str().c_str(), i, as[i].h);
		if (i == 0) {
			if (!near(as[0].h, first, 1e-8)) h.fail("%s first attempt has size %.8g, not %.8g", s.str().c_str(), as[0].h, first);
			continue;
		}
		Att &b = as[i - 1];
		if (!b.sure || h.fails > 4) return;
		if (!ad) continue;
		if (!b.acc && as[i].h >= b.h*(1 - 1e-9)) h.fail("%s attempt %zu was rejected with h=%.8g, the next one has h=%.8g", s.str().c_str(), i - 1, b.h, as[i].h);
		double E = std::max(b.E, 2.3e-16);
		if (b.E < 1e-9) {
			if (b.E < 1e-13) { if (as[i].h > 3.6*b.h*(1 + 1e-6)) h.fail("%s size grows from %.8g to %.8g", s.str().c_str(), b.h, as[i].h); }
			continue; // the difference of nearly equal sums is mostly rounding
		}
		double want = capped(0.9*b.h*std::min(4.0, std::pow(E, -1.0/(1 + k.q))), s, s.t1 - as[i].t);
		if (std::fabs(as[i].h - want) > 1e-3*want)
			h.fail("%s after error norm %.8g with h=%.8g the next attempt has h=%.8g, not %.8g", s.str().c_str(), b.E, b.h, as[i].h, want);
	}
}

// ------------------------------------------------------------ implicit
struct IAtt { double t, h; vec y; std::vector<vec> Y; mat J; bool solved; std::vector<vec> extra; vec Yf; size_t njac; bool ok; };
static std::vector<IAtt> irk_attempts(const Setup &s, bool *complete = nullptr)
{
	std::vector<IAtt> r;
	Coef k = coef(s);
	size_t Ns = k.s, n = s.p.n, pos = 0, im = 0;
	const std::vector<Call> &L = s.p.log;
	for (size_t i = 0; i < Ns; ++i)
		if (std::fabs(k.c(i)) > std::fabs(k.c(im))) im = i;
	while (pos < L.size()) {
		IAtt a;
		a.ok = false;
		a.njac = 1;
		if (!L[pos].jac) break;
		a.t = L[pos].t; a.y = L[pos].y; a.J = L[pos].J;
		++pos;
		if (pos + Ns > L.size()) break;
		a.h = (L[pos + im].t - a.t)/k.c(im);
		if (!(std::fabs(a.h) > 1e-8)) break;
		bool first = true;
		while (pos + Ns <= L.size()) {
			bool grp = true;
			for (size_t i = 0; i < Ns && grp; ++i)
				grp = !L[pos + i].jac && std::fabs(L[pos + i].t - (a.t + k.c(i)*a.h)) <= 1e-10*(1 + std::fabs(a.t));
			if (!grp) break;
			vec Y(Ns*n);
			for (size_t i = 0; i < Ns; ++i) Y.subvec(i*n, i*n + n - 1) = L[pos + i].y - a.y;
			if (first && arma::norm(Y, "inf") != 0) break;
			if (Ns == 1 && !first && std::fabs(k.c(0)) < 1e-12) break;
			first = false;
			a.Y.push_back(Y);
			pos += Ns;
			if (pos < L.size() && L[pos].jac && veq(L[pos].y, a.y) && pos + Ns < L.size()) {
				// a refresh inside the solve, unless a new attempt starts here
				bool fresh = true;
				for (size_t i = 0; i < Ns; ++i) fresh = fresh && !L[pos + 1 + i].jac && veq(L[pos + 1 + i].y, a.y);
				if (fresh) break;
				bool g2 = true;
				for (size_t i = 0; i < Ns && g2; ++i)
					g2 = !L[pos + 1 + i].jac && std::fabs(L[pos + 1 + i].t - (a.t + k.c(i)*a.h)) <= 1e-10*(1 + std::fabs(a.t));
				if (!g2) break;
				++pos;
				++a.njac;
			}
		}
		while (pos < L.size() && !L[pos].jac && a.extra.size() < 3 && std::fabs(L[pos].t - a.t) <= 1e-12*(1 + std::fabs(a.t))) {
			a.extra.push_back(L[pos].y);
			++pos;
		}
		if (a.extra.empty() && pos + 1 < L.size() && L[pos].jac && L[pos + 1].jac) {
			++pos; // refreshed after the last update of a failed solve
			++a.njac;
		}
		a.solved = !a.extra.empty() && veq(a.extra[0], a.y);
		if (a.extra.size() > 2) break;
		a.ok = pos >= L.size() || L[pos].jac;
		r.push_back(a);
		if (!a.ok) break;
	}
	if (complete) *complete = pos >= L.size();
	return r;
}

static vec resid(const Setup &s, const Coef &k, double t, const vec &y, double hh, const vec &Y)
{
	size_t n = y.n_elem;
	mat F(n, k.s);
	for (size_t i = 0; i < k.s; ++i) F.col(i) = s.p.f(t + k.c(i)*hh, y + Y.subvec(i*n, i*n + n - 1));
	return Y - arma::vectorise(hh*F*k.A.t());
}

static void irk_step(H &h, const Setup &s, const Out &o)
{
	Coef k = coef(s);
	size_t n = s.p.n;
	mat AI = arma::inv(k.A);
	vec d = AI.t()*k.b;
	bool complete;
	std::vector<IAtt> as = irk_attempts(s, &complete);
	for (size_t m = 1; m < o.t.size() && h.fails < 5; ++m) {
		double hh = o.t[m] - o.t[m - 1];
		if (hh < 1e-6) continue;
		if (o.st[m].n_elem != n*k.s) {
			h.fail("%s step %zu: recorded stage vector has %d entries", s.str().c_str(), m, (int)o.st[m].n_elem);
			continue;
		}
		mat K = arma::reshape(o.st[m], n, k.s);
		mat Y = hh*K*k.A.t();
		double ill = arma::cond(k.A);
		double sc = arma::abs(Y).max()*ill + 0.1;
		vec yn = o.y[m - 1] + Y*d;
		if (!vnear(yn, o.y[m], 1e-8, sc)) {
			h.fail("%s step %zu: y = %.10g is not y + sum d_j Y_j = %.10g of its recorded stages", s.str().c_str(), m, o.y[m](0), yn(0));
			continue;
		}
		// the recorded stages must be ones the solver stopped at for this t, y, h
		bool hit = !complete, any = hit;
		double best = 1e300;
		for (IAtt &a : as)
			if (a.solved && near(a.t, o.t[m - 1], 1e-12) && near(a.h, hh, 1e-7) && !a.Y.empty()) {
				any = true;
				double q = arma::norm(a.Y.back() - arma::vectorise(Y), "inf");
				best = std::min(best, q);
				if (q <= 1e-7*sc) hit = true;
				if (!vnear(a.y, o.y[m - 1], 1e-12, 1)) h.fail("%s step %zu starts from a value that was not recorded", s.str().c_str(), m);
			}
		if (!any) h.fail("%s step %zu: no stage solve with h=%.8g at t=%.8g", s.str().c_str(), m, hh, o.t[m - 1]);
		else if (!hit) h.fail("%s step %zu: recorded stages differ by %.3g from the solved ones", s.str().c_str(), m, best);
	}
}

// a stage solve that claims success must have earned it
static void solver(H &h, Setup &s)
{
	Coef k = coef(s);
	irk::solver_coeffs sc = irk::get_coefficients(s.method);
	size_t n = s.p.n;
	double t = s.t0, hh = std::min(s.dt, 2.0), xtol = s.no.dx_delta, Rtol = s.no.tol;
	if (h.i(0, 3) == 0) xtol = 0;
	if (h.i(0, 3) == 0) Rtol = 0;
	if (h.i(0, 4) == 0) hh *= 4;
	int maxit = h.i(0, 3) ? h.i(1, 9) : h.i(0, 60), ref = h.i(0, 4);
	s.p.reset();
	s.p.cap = 1000000;
	vec Y(h.i(0, 3), arma::fill::randu), y = s.y0;
	mat J;
	newton::status st;
	size_t nf = h.i(0, 50), nj = h.i(0, 50), nf0 = nf, nj0 = nj;
	int rc;
	bool damped = h.i(0, 3) == 0, plu = h.coin();
	if (damped) {
		maxit *= h.i(1, 40);
		if (h.coin()) { hh *= std::pow(10, h.u(0, 3)); xtol = std::pow(10, h.u(-6, 0)); }
	}
	try {
		auto solve = damped ? plu ? irk::newton_solve_stages<Prob, true, true> : irk::newton_solve_stages<Prob, true, false>
		                    : plu ? irk::newton_solve_stages<Prob, false, true> : irk::newton_solve_stages<Prob, false, false>;
		rc = solve(s.p, y, t, hh, sc, maxit, ref, xtol, Rtol, Y, J, st, nf, nj);
	} catch (...) {
		return;
	}
	char w[300];
	snprintf(w, sizeof w, "[method %d problem %d n=%zu h=%.4g maxit=%d refresh=%d xtol=%.2g Rtol=%.2g damped=%d PLU=%d]", s.method, s.p.kind,
	         n, hh, maxit, ref, xtol, Rtol, damped, plu);
	if (nf - nf0 != s.p.nf) h.fail("%s adds %zu right-hand sides to the count, made %zu", w, nf - nf0, s.p.nf);
	if (nj - nj0 != s.p.nj) h.fail("%s adds %zu Jacobians to the count, made %zu", w, nj - nj0, s.p.nj);
	if (Y.n_elem != n*k.s) { h.fail("%s returns %d stage entries", w, (int)Y.n_elem); return; }
	if (!Y.is_finite() || arma::norm(Y, "inf") > 1e5) return;
	if (J.n_rows != n || arma::norm(arma::vectorise(J - s.p.j(t, y)), "inf") > 1e-10) h.fail("%s returned Jacobian is not the one at (t, y)", w);
	if (ref == 0 && s.p.nj != 1) h.fail("%s refresh 0 but %zu Jacobians", w, s.p.nj);
	for (Call &c : s.p.log)
		if (c.jac && (c.t != t || !veq(c.y, y))) { h.fail("%s asks for a Jacobian elsewhere than (t, y)", w); break; }
	std::vector<vec> it;
	bool parsed = true;
	std::vector<Call> fs;
	for (Call &c : s.p.log) if (!c.jac) fs.push_back(c);
	if (fs.size() % k.s) parsed = false;
	for (size_t g = 0; parsed && g + k.s <= fs.size(); g += k.s) {
		vec Q(n*k.s);
		for (size_t i = 0; i < k.s; ++i) {
			if (std::fabs(fs[g + i].t - (t + k.c(i)*hh)) > 1e-10) {
				h.fail("%s stage %zu evaluated at time %.12g instead of t + c h = %.12g", w, i, fs[g + i].t, t + k.c(i)*hh);
				return;
			}
			Q.subvec(i*n, i*n + n - 1) = fs[g + i].y - y;
		}
		it.push_back(Q);
	}
	if (!parsed || it.empty()) return;
	size_t updates = it.size() - 1;
	if (maxit > 0 && (long)updates >= maxit) h.fail("%s made %zu updates", w, updates);
	double big = 1e-7*(1 + arma::norm(Y, "inf"));
	if (arma::norm(it.back() - Y, "inf") > big) { h.fail("%s returned stages are not the last ones evaluated", w); return; }
	mat S = arma::eye(n*k.s, n*k.s) - hh*arma::kron(k.A, s.p.j(t, y));
	double ill = arma::cond(S);
	if (!(ill < 1e6)) return;
	for (size_t m = 0; m < updates; ++m) {
		vec R = resid(s, k, t, y, hh, it[m]);
		vec dY = it[m + 1] - it[m];
		if (damped) {
			// a multiple of the simplified Newton update
			double rr = arma::dot(R, R), lam = rr > 0 ? -arma::dot(S*dY, R)/rr : 0;
			if (!(std::sqrt(rr) > 1e-9*(1 + arma::norm(it[m], "inf")))) continue;
			R *= lam;
		}
		if (arma::norm(S*dY + R, "inf") > 1e-8*(arma::norm(R, "inf") + arma::norm(it[m], "inf") + 1)) {
			h.fail("%s update %zu does not solve (I - h A x J) dY = -R (defect %.3g)", w, m + 1, arma::norm(S*dY + R, "inf"));
			return;
		}
	}
	vec R = resid(s, k, t, y, hh, Y);
	double r2 = arma::dot(R, R), x2 = updates ? std::pow(arma::norm(it[updates] - it[updates - 1]), 2) : 1e300;
	if (damped && updates) x2 = std::pow(arma::norm(arma::solve(S, resid(s, k, t, y, hh, it[updates - 1]))), 2);
	double fl = 1e-12*(1 + arma::norm(Y, "inf"));
	bool rok = std::sqrt(r2) < Rtol*(1 + 1e-6) + fl && Rtol > 0, xok = std::sqrt(x2) < xtol*(1 + 1e-6) + fl && xtol > 0;
	bool rno = std::sqrt(r2) > Rtol*(1 - 1e-6) - fl, xno = std::sqrt(x2) > xtol*(1 - 1e-6) - fl;
	if (rc == newton::SUCCESS && !(rok || xok) && (updates > 0 || !rok))
		h.fail("%s reports success with residual %.3g and last update %.3g", w, std::sqrt(r2), std::sqrt(x2));
	if (rc != newton::SUCCESS && rc != newton::MAXIT_EXCEEDED) h.fail("%s reports status %d", w, rc);
	if (rc != newton::SUCCESS && updates > 0 && !(rno && xno))
		h.fail("%s does not report success with residual %.3g and last update %.3g", w, std::sqrt(r2), std::sqrt(x2));
	if (st.conv_status != rc) h.fail("%s status struct says %d, returned %d", w, st.conv_status, rc);
}

struct Est { vec e1, e2, yn; double n1, n2; };
static Est estimate(const Setup &s, const Coef &k, double t, const vec &y, double hh, const vec &Yf, double fac)
{
	Est r;
	size_t n = y.n_elem;
	mat AI = arma::inv(k.A);
	vec d = AI.t()*k.b, d2 = AI.t()*k.b2;
	mat Y = arma::reshape(Yf, n, k.s);
	double g = k.gamma*hh;
	mat S = arma::eye(n, n) - g*s.p.j(t, y);
	vec dd = Y*(d2 - d);
	r.yn = y + Y*d;
	r.e1 = fac*arma::solve(S, g*s.p.f(t, y) + dd);
	r.e2 = fac*arma::solve(S, g*s.p.f(t, y + r.e1) + dd);
	r.n1 = rms(r.e1, y, r.yn, s);
	r.n2 = rms(r.e2, y, r.yn, s);
	return r;
}

static void irk_accept(H &h, const Setup &s, const Out &o)
{
	Coef k = coef(s);
	if (!adaptive(s, k)) return;
	std::vector<IAtt> as = irk_attempts(s);
	if (arma::cond(k.A) > 1e8) return;
	double wantfac = h.known("err-factor") ? 0 : 1; // 0: with the extra factor h
	// what is recorded, whatever the calls look like: one of the two estimates,
	// the refined one on the first step; their norm does not exceed 1
	for (size_t m = 1; m < o.t.size() && m < o.ee.size() && h.fails < 3; ++m) {
		double hh = o.t[m] - o.t[m - 1];
		if (hh < 1e-3 || o.st[m].n_elem != s.p.n*k.s || (o.stopped && m + 1 == o.t.size())) continue;
		mat Y = hh*arma::reshape(o.st[m], s.p.n, k.s)*k.A.t();
		double tol = (1e-6*(arma::norm(Y, "inf") + hh) + 1e-12*(1 + arma::norm(o.y[m - 1], "inf")))*std::max(1.0, arma::cond(k.A)*1e-2);
		bool good = false;
		for (int fac = 0; fac < 2; ++fac) {
			if (fac && wantfac != 0) continue;
			Est e = estimate(s, k, o.t[m - 1], o.y[m - 1], hh, arma::vectorise(Y), fac ? hh : 1.0);
			good = good || arma::norm(o.ee[m] - e.e2, "inf") <= (fac ? hh : 1)*tol || (m > 1 && arma::norm(o.ee[m] - e.e1, "inf") <= (fac ? hh : 1)*tol);
		}
		if (!good) h.fail("%s step %zu from t=%.6g with h=%.4g: recorded error vector %.8g,... is neither estimate", s.str().c_str(), m, o.t[m - 1], hh, o.ee[m](0));
	}
	bool alt = true;
	size_t acc = 0;
	for (size_t i = 0; i < as.size() && h.fails < 5; ++i) {
		IAtt &a = as[i];
		if (!a.ok) return;
		if (!a.solved) continue;
		double tol = 1e-6*(arma::norm(a.Y.back(), "inf") + a.h)*std::max(1.0, arma::cond(k.A)*1e-2);
		Est e = estimate(s, k, a.t, a.y, a.h, a.Y.back(), 1.0), ef = estimate(s, k, a.t, a.y, a.h, a.Y.back(), a.h);
		vec good = alt ? e.e2 : e.e1, fgood = alt ? ef.e2 : ef.e1;
		double E = alt ? e.n2 : e.n1, Ef = alt ? ef.n2 : ef.n1;
		bool recorded = acc + 1 < o.t.size() && near(o.t[acc], a.t, 1e-12) && near(o.t[acc + 1], a.t + a.h, 1e-10);
		if (o.stopped) return;
		if (recorded && a.h > 1e-6) {
			double er = o.err[acc + 1];
			vec re = o.ee[acc + 1];
			bool m1 = arma::norm(re - good, "inf") <= tol, m2 = wantfac == 0 && arma::norm(re - fgood, "inf") <= tol*a.h;
			if (!m1 && !m2) {
				h.fail("%s attempt %zu (t=%.6g h=%.4g, %s estimate): recorded error vector %.8g, formula %.8g", s.str().c_str(), i, a.t,
				       a.h, alt ? "refined" : "plain", re(0), wantfac == 0 ? fgood(0) : good(0));
				return;
			}
			double En = rms(re, a.y, o.y[acc + 1], s);
			if (En < 1e-10 ? er > 1e-9 : std::fabs(En - er) > 1e-6*En) {
				h.fail("%s attempt %zu: recorded norm %.8g of an error vector with norm %.8g", s.str().c_str(), i, er, En);
				return;
			}
			if (er > 1 + 1e-9) h.fail("%s attempt %zu accepted with error norm %.8g", s.str().c_str(), i, er);
		}
		// an attempt that is not recorded was rejected: right only with a norm above 1
		bool next = i + 1 < as.size();
		bool retried = next && as[i + 1].t == a.t && veq(as[i + 1].y, a.y);
		if (!next) return;
		if (retried && !recorded) {
			double wf = wantfac == 0 ? Ef : E;
			if (wf < 1 - 1e-3 && E < 1 - 1e-3) {
				h.fail("%s attempt %zu with error norm %.8g was rejected", s.str().c_str(), i, wf);
				return;
			}
			alt = true;
		} else if (!retried) {
			double wf = wantfac == 0 ? Ef : E;
			if (wf > 1 + 1e-3 && E > 1 + 1e-3 && !recorded)
				h.fail("%s attempt %zu with error norm %.8g was accepted", s.str().c_str(), i, wf);
			++acc;
			alt = false;
			if (!recorded) return;
		}
	}
}

static void irk_sizes(H &h, const Setup &s, const Out &o)
{
	Coef k = coef(s);
	bool ad = adaptive(s, k);
	double first = capped(s.dt, s, s.t1 - s.t0);
	std::vector<IAtt> as = irk_attempts(s);
	size_t acc = 0;
	for (size_t i = 0; i < as.size() && h.fails < 5; ++i) {
		IAtt &a = as[i];
		if (!(a.h > 0)) h.fail("%s attempt %zu has size %.8g", s.str().c_str(), i, a.h);
		if (s.maxdt > 0 && a.h > s.maxdt*(1 + 1e-8) + 1e-12) h.fail("%s attempt %zu has size %.8g", s.str().c_str(), i, a.h);
		if (a.t + a.h > s.t1 + 1e-9) h.fail("%s attempt %zu at %.8g with h=%.8g passes the end", s.str().c_str(), i, a.t, a.h);
		if (i == 0 && !near(a.h, first, 1e-8)) h.fail("%s first attempt has size %.8g, not %.8g", s.str().c_str(), a.h, first);
		if (!a.ok || i + 1 >= as.size()) break;
		IAtt &b = as[i + 1];
		if (b.t == a.t && veq(b.y, a.y)) {
			if (ad && b.h >= a.h*(1 - 1e-9))
				h.fail("%s attempt %zu failed with h=%.8g, the next one has h=%.8g", s.str().c_str(), i, a.h, b.h);
			continue;
		}
		++acc;
		if (o.stopped || acc >= o.t.size()) break;
		if (!ad) {
			double want = std::min(a.h, s.t1 - b.t);
			if (!near(b.h, want, 1e-7)) h.fail("%s constant step turns from %.8g to %.8g", s.str().c_str(), a.h, b.h);
			continue;
		}
		double E = o.err[acc];
		double cap = a.h*std::min(8.0, std::pow(E, -1.0/(1 + k.q)));
		if (b.h > cap*(1 + 1e-6)) h.fail("%s after error norm %.8g with h=%.8g the next attempt has h=%.8g", s.str().c_str(), E, a.h, b.h);
	}
}

// tolerances etc. handed to the solver, judged by when integration accepts a solve
static void irk_solves(H &h, const Setup &s, const Out &o)
{
	Coef k = coef(s);
	std::vector<IAtt> as = irk_attempts(s);
	if (o.stopped && !as.empty()) as.pop_back(); // the calls end in the middle of it
	for (IAtt &a : as) {
		if (!a.ok || a.Y.size() < 2 || h.fails > 4) return;
		if (!a.solved) continue;
		vec R = resid(s, k, a.t, a.y, a.h, a.Y.back());
		double r = arma::norm(R), x = arma::norm(a.Y.back() - a.Y[a.Y.size() - 2]);
		double fl = 1e-12*(1 + arma::norm(a.Y.back(), "inf"));
		if (!(r < s.no.tol*(1 + 1e-6) + fl || x < s.no.dx_delta*(1 + 1e-6) + fl))
			h.fail("%s a solve at t=%.8g h=%.4g is accepted with residual %.9g and update %.3g (tolerances %.9g, %.3g)", s.str().c_str(), a.t, a.h, r, x, s.no.tol, s.no.dx_delta);
		if (s.no.refresh_jac == 0 && a.njac > 1) h.fail("%s refresh 0 but %zu Jacobians in one solve", s.str().c_str(), a.njac);
	}
}

// intervals whose end is only just not reached by whole steps, very short ones,
// and steps that are not small against the position
static void edge(H &h, Setup &s)
{
	if (h.coin()) return;
	if (h.coin()) {
		s.t0 = h.coin() ? 0.0 : h.i(-8, 8)/4.0;
		s.dt = std::ldexp(1.0, -h.i(1, 6));
		s.t1 = s.t0 + s.dt*h.i(1, 20) + (h.coin() ? std::pow(10.0, h.u(-13, -2)) : -std::pow(10.0, h.u(-13, -3)));
		if (h.i(0, 3)) { s.adaptive = false; s.maxdt = 0; }
	} else {
		s.t0 = 0;
		s.t1 = std::pow(10.0, h.u(-14, -2));
		if (h.coin()) s.dt = s.t1/h.u(1.5, 9);
	}
	if (!(s.t1 > s.t0)) s.t1 = s.t0 + s.dt;
}

int run(H &h)
{
	std::string id = h.id;
	bool e = id <= "C03" || (id >= "C04" && id <= "C07"), i = id >= "C04";
	while (h.more()) {
		Setup s = setup(h, e && i ? h.coin() : e);
		Watch w(60);
		h.cases++;
		if (id == "C06") { limit(h, s); continue; }
		if (id == "C07") { output(h, s); continue; }
		if (id == "C11" && h.coin()) { solver(h, s); continue; }
		if (h.i(0, 4) == 0 && id != "C05") s.maxsteps = h.i(0, 30);
		if (id == "C05" && h.coin()) s.maxsteps = h.i(0, 30);
		if (id == "C02" || id == "C09") edge(h, s);
		Out o = go(s);
		if (!o.stopped && !finite(o)) continue;
		if (id == "C02" || id == "C09") {
			if (!o.stopped) shape(h, s, o);
			if (!o.stopped && id == "C09" && !adaptive(s, coef(s))) {
				// a failed solve at constant size must end the run with an error
				std::vector<IAtt> as = irk_attempts(s);
				for (size_t k = 0; k < as.size(); ++k)
					if (as[k].ok && !as[k].solved && as[k].Y.size() > 1 && (k + 1 < as.size() || o.status == SUCCESS)) {
						h.fail("%s constant-size attempt %zu was not solved but the run went on (status %d)", s.str().c_str(), k, o.status);
						break;
					}
			}
		} else if (id == "C01") { if (!o.stopped) erk_formula(h, s, o); }
		else if (id == "C03") erk_accept(h, s, o);
		else if (id == "C04") { if (s.expl) erk_sizes(h, s, o); else irk_sizes(h, s, o); }
		else if (id == "C05") { if (!o.stopped) counters(h, s, o); }
		else if (id == "C08") { if (!o.stopped) irk_step(h, s, o); }
		else if (id == "C10") irk_accept(h, s, o);
		else if (id == "C11") irk_solves(h, s, o);
	}
	return 0;
}
