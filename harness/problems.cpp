#include "common.hpp"
#include "rehuel.hpp"
#include "test_equations.hpp"

using arma::mat;
using arma::vec;
namespace te = test_equations;

struct P {
	std::string name;
	int n;
	std::shared_ptr<functor> f;
	std::vector<double> par;
};

static double nz(H &h) { return (h.coin() ? 1 : -1) * h.u(0.3, 3); }

static P make(H &h, int k)
{
	auto p = [&](const char *name, int n, functor *f, std::vector<double> par) { return P{name, n, std::shared_ptr<functor>(f), par}; };
	double a = nz(h), b = nz(h), c = nz(h);
	bool d = h.coin();
	switch (k) {
	case 0: return d ? p("exponential", 1, new te::exponential, {1}) : p("exponential", 1, new te::exponential(a), {a});
	case 1: return p("harmonic", 2, new te::harmonic(a), {a});
	case 2: return d ? p("vdpol", 2, new te::vdpol, {0.5}) : p("vdpol", 2, new te::vdpol(a), {a});
	case 3: return d ? p("bruss", 2, new te::bruss, {1, 2.5}) : p("bruss", 2, new te::bruss(a, b), {a, b});
	case 4: return p("rober", 3, new te::rober, {});
	case 5: return p("dimer", 2, new te::dimer(a), {a});
	case 6: return p("stiff_eq", 2, new te::stiff_eq, {});
	case 7:
		a = std::fabs(a); b = std::fabs(b); c = std::fabs(c);
		return d ? p("three_body", 12, new te::three_body, {1, 1, 1}) : p("three_body", 12, new te::three_body(a, b, c), {a, b, c});
	case 8: return p("kinetic_4", 4, new te::kinetic_4(a, b, c), {a, b, c});
	default: return d ? p("lorenz", 3, new te::lorenz, {10, 28, 8.0 / 3}) : p("lorenz", 3, new te::lorenz(a, b, c), {a, b, c});
	}
}

static vec D(functor &f, double t, const vec &y, int j)
{
	// central differences, extrapolated
	auto cd = [&](double e) {
		vec a = y, b = y;
		a(j) += e;
		b(j) -= e;
		return vec((f.fun(t, a) - f.fun(t, b)) / (a(j) - b(j)));
	};
	double e = 1e-3;
	return (4 * cd(e / 2) - cd(e)) / 3;
}

static std::string str(const vec &y)
{
	std::string s;
	char b[40];
	for (double x : y) { snprintf(b, sizeof b, "%s%.17g", s.empty() ? "" : ",", x); s += b; }
	return s;
}

static vec state(H &h, const P &p)
{
	vec y(p.n);
	for (auto &x : y) x = nz(h);
	if (p.name == "three_body")
		for (int i = 0; i < 6; ++i) y(i) = h.u(-0.3, 0.3) + ((i < 2) ? 0 : i < 4 ? 2 : (i == 4 ? -1.5 : 2.5));
	return y;
}

static void jac_case(H &h)
{
	P p = make(h, h.i(0, 9));
	++h.cases;
	vec y = state(h, p), y0 = y;
	double t = h.u(-2, 2);
	vec f = p.f->fun(t, y);
	mat J = p.f->jac(t, y);
	if ((int)f.n_elem != p.n || (int)J.n_rows != p.n || (int)J.n_cols != p.n) return h.fail("%s: sizes", p.name.c_str());
	std::vector<int> mask(p.n, 0);
	std::string bad;
	for (int j = 0; j < p.n; ++j) {
		vec d = D(*p.f, t, y, j);
		for (int i = 0; i < p.n; ++i) {
			double scale = 1e-6 * (1 + std::fabs(d(i)) + arma::norm(f, "inf"));
			if (!(std::fabs(J(i, j) - d(i)) <= scale)) {
				mask[i] |= 1 << j;
				char b[120];
				snprintf(b, sizeof b, " (%d,%d) is %.12g instead of %.12g", i, j, J(i, j), d(i));
				if (bad.size() < 300) bad += b;
			}
		}
	}
	bool any = false;
	for (int i = 0; i < p.n; ++i) any |= mask[i] != 0;
	// a listed finding names the wrong entries; no others may be wrong
	for (auto &a : h.allowed) {
		if (a.compare(0, p.name.size() + 1, p.name + ":") != 0) continue;
		std::stringstream ss(a.substr(p.name.size() + 1));
		std::string w;
		any = false;
		for (int i = 0; i < p.n && std::getline(ss, w, '.'); ++i) any |= (mask[i] & ~std::stoi(w, nullptr, 16)) != 0;
	}
	if (any) h.fail("%s at (%s):%s", p.name.c_str(), str(y).c_str(), bad.c_str());
	mat K(p.n, p.n);
	K.fill(7.25);
	mat K0 = K;
	vec g = p.f->compute(t, y, K, true), g2 = p.f->compute(t, y, K0, false);
	for (int i = 0; i < p.n; ++i) {
		if (g(i) != f(i) || g2(i) != f(i)) return h.fail("%s: combined right-hand side differs at (%s)", p.name.c_str(), str(y).c_str());
		for (int j = 0; j < p.n; ++j) {
			if (K(i, j) != J(i, j)) return h.fail("%s: combined Jacobian differs at (%s)", p.name.c_str(), str(y).c_str());
			if (K0(i, j) != 7.25) return h.fail("%s: the Jacobian is touched although not asked for", p.name.c_str());
		}
	}
	for (int i = 0; i < p.n; ++i)
		if (y(i) != y0(i)) return h.fail("%s: the state was changed", p.name.c_str());
}

static void law_case(H &h)
{
	P p = make(h, h.i(0, 9));
	++h.cases;
	vec y = state(h, p);
	double t = h.u(-1, 1);
	vec f = p.f->fun(t, y);
	auto zero = [&](double v, double scale, const char *what) {
		if (!(std::fabs(v) <= 1e-9 * (1 + scale))) h.fail("%s at (%s): %s (%.12g)", p.name.c_str(), str(y).c_str(), what, v);
	};
	auto want = [&](std::initializer_list<double> w) {
		int i = 0;
		for (double x : w) {
			if (!near(f(i), x, 1e-10)) h.fail("%s at (%s): component %d is %.12g instead of %.12g", p.name.c_str(), str(y).c_str(), i, f(i), x);
			++i;
		}
	};
	auto sol = [&](std::function<vec(double)> s, double tt) {
		double e = 1e-4;
		vec d = (8 * (s(tt + e) - s(tt - e)) - (s(tt + 2 * e) - s(tt - 2 * e))) / (12 * e), g = p.f->fun(tt, s(tt));
		for (arma::uword i = 0; i < d.n_elem; ++i)
			if (!(std::fabs(d(i) - g(i)) <= 1e-5 * (1 + std::fabs(g(i)))))
				h.fail("%s: solution at %.12g moves by %.12g instead of %.12g", p.name.c_str(), tt, d(i), g(i));
	};
	double n1 = arma::norm(f, 1);
	if (p.name == "exponential") {
		want({p.par[0] * y(0)});
		auto &q = *(te::exponential *)p.f.get();
		sol([&](double s) { return q.sol(s); }, t);
		zero(q.sol(0)(0) - 1, 0, "does not start at 1");
	} else if (p.name == "harmonic") {
		want({p.par[0] * y(1), -p.par[0] * y(0)});
		auto &q = *(te::harmonic *)p.f.get();
		sol([&](double s) { return q.sol(s); }, t);
		zero(q.sol(0)(0), 0, "does not start at (0,1)");
		zero(q.sol(0)(1) - 1, 0, "does not start at (0,1)");
	} else if (p.name == "vdpol") {
		want({y(1), ((1 - y(0) * y(0)) * y(1) - y(0)) / p.par[0]});
	} else if (p.name == "bruss") {
		want({p.par[0] + y(0) * y(0) * y(1) - p.par[1] * y(0) - y(0), p.par[1] * y(0) - y(0) * y(0) * y(1)});
	} else if (p.name == "rober") {
		zero(f(0) + f(1) + f(2), n1, "mass is not conserved");
		if (!near(f(0), -0.04 * y(0) + 1e4 * y(1) * y(2))) h.fail("rober at (%s): first reaction", str(y).c_str());
		if (!near(f(2), 3e7 * y(1) * y(1))) h.fail("rober at (%s): last reaction", str(y).c_str());
	} else if (p.name == "dimer") {
		double r = p.par[0] * y(0) * y(0) - y(1) / p.par[0];
		want({-2 * r, r});
	} else if (p.name == "stiff_eq") {
		want({y(1), -1001 * y(1) - 1000 * y(0)});
		auto &q = *(te::stiff_eq *)p.f.get();
		for (double tt : {0.05, 0.3, 1.7}) sol([&](double s) { return q.sol(s); }, tt);
		zero(q.sol(0)(0) - 1, 0, "does not start at (1,0)");
		zero(q.sol(0)(1), 0, "does not start at (1,0)");
	} else if (p.name == "kinetic_4") {
		zero(f(0) + 2 * f(1) + 3 * f(2) + 4 * f(3), n1, "mass is not conserved");
	} else if (p.name == "lorenz") {
		want({p.par[0] * (y(1) - y(0)), y(0) * (p.par[1] - y(2)) - y(1), y(0) * y(1) - p.par[2] * y(2)});
	} else {
		auto &q = *(te::three_body *)p.f.get();
		bool kf = h.known("three_body-force"), ke = h.known("three_body-energy");
		double T = 0, V = q.pot_energy(y), w = 0;
		for (int i = 0; i < 6; ++i) {
			zero(f(i) - y(6 + i) / p.par[i / 2], std::fabs(f(i)), "velocity");
			T += 0.5 * y(6 + i) * y(6 + i) / p.par[i / 2];
		}
		for (int a = 0; a < 3; ++a)
			for (int b = 0; b < a; ++b) w -= p.par[a] * p.par[b] / std::hypot(y(2 * a) - y(2 * b), y(2 * a + 1) - y(2 * b + 1));
		zero(V - w, std::fabs(w), "potential energy");
		if (!ke) zero(q.kin_energy(y) - T, T, "kinetic energy");
		zero(f(6) + f(8) + f(10), n1, "momentum along x");
		for (int i = 0; i < 6; ++i) {
			if (i == 3 && kf) continue;
			double e = 1e-4;
			auto v = [&](double s) { vec z = y; z(i) += s; return q.pot_energy(z); };
			double d = (8 * (v(e) - v(-e)) - (v(2 * e) - v(-2 * e))) / (12 * e);
			if (!(std::fabs(d + f(6 + i)) <= 1e-7 * (1 + std::fabs(d)))) h.fail("three_body at (%s): force %d is %.12g, slope %.12g", str(y).c_str(), i, f(6 + i), d);
		}
		if (!kf) zero(f(7) + f(9) + f(11), n1, "momentum along y");
	}
}

int run(H &h)
{
	while (h.more()) {
		Watch w(20);
		if (h.id == "C26") jac_case(h);
		else if (h.id == "C27") law_case(h);
		else return 2;
	}
	return 0;
}
