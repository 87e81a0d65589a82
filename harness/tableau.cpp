#include "common.hpp"
#include "rehuel.hpp"

using arma::mat;
using arma::vec;
typedef long double L;
struct M { const char *n; int code; bool implemented; };
#define ME(f, x) {#x, f::x, true}
static const std::vector<M> EM = {ME(erk, EXPLICIT_EULER), ME(erk, RUNGE_KUTTA_4), ME(erk, BOGACKI_SHAMPINE_32), ME(erk, CASH_KARP_54),
                                  ME(erk, DORMAND_PRINCE_54), ME(erk, FEHLBERG_54)};
static const std::vector<M> IM = {
	ME(irk, IMPLICIT_EULER), ME(irk, RADAU_IIA_32), ME(irk, RADAU_IIA_53), ME(irk, RADAU_IIA_95), ME(irk, RADAU_IIA_137),
	ME(irk, LOBATTO_IIIA_43), ME(irk, LOBATTO_IIIA_127), ME(irk, LOBATTO_IIIC_43), ME(irk, LOBATTO_IIIC_64), ME(irk, LOBATTO_IIIC_85),
	ME(irk, GAUSS_LEGENDRE_42), ME(irk, GAUSS_LEGENDRE_147), {"LOBATTO_IIIA_85", irk::LOBATTO_IIIA_85, false},
	{"LOBATTO_IIIC_127", irk::LOBATTO_IIIC_127, false}, {"GAUSS_LEGENDRE_63", irk::GAUSS_LEGENDRE_63, false},
	{"GAUSS_LEGENDRE_105", irk::GAUSS_LEGENDRE_105, false}};
static const L TOL = 2e-12L;

static bool cl(L a, L b, L tol = TOL) { return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }

// ---------------------------------------------------------------- rooted trees
struct Tree { std::vector<int> kids; int n; L dens; };
static std::vector<Tree> pool;
static std::vector<std::vector<int>> byn;
static void grow(int left, int mx, std::vector<int> &acc, std::vector<std::vector<int>> &out)
{
	if (!left) { out.push_back(acc); return; }
	for (int t = mx; t >= 0; --t)
		if (pool[t].n <= left) {
			acc.push_back(t);
			grow(left - pool[t].n, t, acc, out);
			acc.pop_back();
		}
}
static void trees(int N)
{
	if (!pool.empty()) return;
	byn.resize(N + 1);
	for (int n = 1; n <= N; ++n) {
		std::vector<std::vector<int>> o;
		std::vector<int> acc;
		grow(n - 1, (int)pool.size() - 1, acc, o);
		for (auto &k : o) {
			Tree t;
			t.kids = k; t.n = n; t.dens = n;
			for (int q : k) t.dens *= pool[q].dens;
			byn[n].push_back((int)pool.size());
			pool.push_back(t);
		}
	}
}
static L defect(const vec &b, const mat &A, int n)
{
	trees(8);
	int s = b.n_elem;
	std::vector<std::vector<L>> w(pool.size());
	L worst = 0;
	for (size_t q = 0; q < pool.size() && pool[q].n <= n; ++q) {
		w[q].assign(s, 1);
		for (int k : pool[q].kids)
			for (int i = 0; i < s; ++i) {
				L u = 0;
				for (int j = 0; j < s; ++j) u += A(i, j) * w[k][j];
				w[q][i] *= u;
			}
		if (pool[q].n != n) continue;
		L d = -1 / pool[q].dens;
		for (int i = 0; i < s; ++i) d += b(i) * w[q][i];
		worst = std::max(worst, std::fabs(d));
	}
	return worst;
}

static int name_order(const std::string &n)
{
	if (n.size() > 5 && n.substr(n.size() - 5) == "EULER") return 1;
	std::string t = n.substr(n.rfind('_') + 1);
	return atoi(t.size() == 1 ? t.c_str() : t.substr(0, t.size() - 1).c_str());
}

template <class C> static bool dims(H &h, const char *n, const C &c)
{
	arma::uword s = c.b.n_elem;
	if (!s || c.c.n_elem != s || c.A.n_rows != s || c.A.n_cols != s) { h.fail("%s has inconsistent dimensions", n); return false; }
	for (arma::uword i = 0; i < s; ++i) {
		L r = 0;
		for (arma::uword j = 0; j < s; ++j) r += c.A(i, j);
		if (!cl(r, c.c(i))) h.fail("%s: row %d of the matrix sums to %.17g, node is %.17g", n, (int)i, (double)r, c.c(i));
	}
	if (c.order != name_order(n)) h.fail("%s claims order %d", n, (int)c.order);
	return true;
}

static void c12(H &h)
{
	for (const M &m : EM) {
		auto c = erk::get_coefficients(m.code);
		if (!dims(h, m.n, c)) continue;
		int s = c.b.n_elem;
		for (int i = 0; i < s; ++i)
			for (int j = i; j < s; ++j)
				if (c.A(i, j) != 0) h.fail("%s is not explicit at (%d, %d)", m.n, i, j);
		for (int k = 1; k <= std::min(8, (int)c.order); ++k) {
			L d = defect(c.b, c.A, k);
			if (!(d <= TOL)) h.fail("%s misses an order condition of order %d by %.3g", m.n, k, (double)d);
		}
		if (c.b2.n_elem) {
			if ((int)c.b2.n_elem != s) { h.fail("%s has %d embedded weights", m.n, (int)c.b2.n_elem); continue; }
			bool diff = false;
			for (int i = 0; i < s; ++i) diff |= !cl(c.b(i), c.b2(i));
			if (!diff) h.fail("%s: embedded weights equal the main ones", m.n);
			if (c.order2 < 1) h.fail("%s claims embedded order %d", m.n, (int)c.order2);
			for (int k = 1; k <= std::min(8, (int)c.order2); ++k) {
				L d = defect(c.b2, c.A, k);
				if (!(d <= TOL)) h.fail("%s misses an embedded order condition of order %d by %.3g", m.n, k, (double)d);
			}
		}
		if (c.FSAL) {
			bool ok = c.c(0) == 0 && cl(c.c(s - 1), 1);
			for (int j = 0; j < s; ++j) ok = ok && cl(c.A(s - 1, j), c.b(j));
			if (!ok) h.fail("%s is flagged as reusing its last stage but its last stage is another one", m.n);
		}
	}
}

static int quad(const vec &b, const vec &c, int mx, double g = 0)
{
	for (int k = 1; k <= mx; ++k) {
		L d = -1.0L / k + (k == 1 ? g : 0);
		for (arma::uword i = 0; i < b.n_elem; ++i) d += b(i) * std::pow((L)c(i), k - 1);
		if (std::fabs(d) > TOL) return k - 1;
	}
	return mx;
}
static int stage(const mat &A, const vec &c, int mx)
{
	for (int k = 1; k <= mx; ++k)
		for (arma::uword i = 0; i < c.n_elem; ++i) {
			L d = -std::pow((L)c(i), k) / k;
			for (arma::uword j = 0; j < c.n_elem; ++j) d += A(i, j) * std::pow((L)c(j), k - 1);
			if (std::fabs(d) > TOL) return k - 1;
		}
	return mx;
}
static int adj(const mat &A, const vec &b, const vec &c, int mx)
{
	for (int k = 1; k <= mx; ++k)
		for (arma::uword j = 0; j < c.n_elem; ++j) {
			L d = -b(j) / k * (1 - std::pow((L)c(j), k));
			for (arma::uword i = 0; i < c.n_elem; ++i) d += b(i) * std::pow((L)c(i), k - 1) * A(i, j);
			if (std::fabs(d) > TOL) return k - 1;
		}
	return mx;
}

static void c13(H &h)
{
	for (const M &m : IM) {
		auto c = irk::get_coefficients(m.code);
		if (!m.implemented && (c.b.n_elem == 0 || !irk::verify_solver_coeffs(c))) continue;
		if (!dims(h, m.n, c)) continue;
		int s = c.b.n_elem;
		std::string nm = m.n;
		int p = quad(c.b, c.c, 2 * s + 1), eta = stage(c.A, c.c, s + 1), zeta = adj(c.A, c.b, c.c, s + 1);
		if (p < c.order || c.order > eta + zeta + 1 || c.order > 2 * eta + 2)
			h.fail("%s claims order %d but satisfies B(%d) C(%d) D(%d)", m.n, (int)c.order, p, eta, zeta);
		if (c.b2.n_elem) {
			if ((int)c.b2.n_elem != s) { h.fail("%s has %d embedded weights", m.n, (int)c.b2.n_elem); continue; }
			int q = quad(c.b2, c.c, c.order2, c.gamma);
			std::string key = "embedded-order:" + nm + ":";
			for (int i = 0; i < s; ++i) {
				char t[40];
				snprintf(t, 40, "%s%.6f", i ? "," : "", c.b2(i));
				key += t;
			}
			if ((c.order2 < 1 || q < c.order2 || eta < c.order2 - 1) && !h.known(key))
				h.fail("%s: gamma and the embedded weights have order %d, claimed %d (stage order %d)", m.n, q, (int)c.order2, eta);
		}
		arma::cx_vec ev;
		if (c.gamma != 0 && arma::eig_gen(ev, c.A)) {
			double best = 1e9;
			bool real = false;
			for (auto &e : ev)
				if (std::fabs(e.imag()) < 1e-9 && std::fabs(e.real()) > 1e-9) {
					real = true;
					best = std::min(best, std::fabs(e.real() - c.gamma));
				}
			if (real && best > 1e-8 && !h.known("gamma:" + nm)) h.fail("%s: gamma %.17g is %.3g away from an eigenvalue", m.n, c.gamma, best);
		}
		if (nm.find("RADAU") == 0 || nm.find("LOBATTO_IIIC") == 0 || nm == "IMPLICIT_EULER") {
			bool ok = cl(c.c(s - 1), 1);
			for (int j = 0; j < s; ++j) ok = ok && cl(c.A(s - 1, j), c.b(j));
			if (!ok) h.fail("%s is not stiffly accurate", m.n);
		}
		if (std::fabs(arma::det(c.A)) < 1e-18 && !h.known("singular:" + nm)) h.fail("%s has a singular matrix", m.n);
	}
}

// -------------------------------------------------------------------------- C14
static void __attribute__((noinline)) poison(int v)
{
	volatile unsigned char a[40000];
	for (size_t i = 0; i < sizeof a; ++i) a[i] = (unsigned char)v;
}
static bool eqm(const mat &a, const mat &b) { return a.n_rows == b.n_rows && a.n_cols == b.n_cols && (a.is_empty() || arma::abs(a - b).max() == 0); }
static bool isfsal(const erk::solver_coeffs &c) { return c.FSAL; }
static bool isfsal(const irk::solver_coeffs &c) { return c.FSAL; }

template <class G, class V> static void lookup(H &h, const char *fam, G get, V ok, int code, const M *m, bool expl)
{
	Watch w(20, std::string(fam) + " coefficient lookup does not return");
	poison(0x5a);
	auto a = get(code);
	poison(0x33);
	auto b = get(code);
	unsigned char fa = 0, fb = 0;
	memcpy(&fa, &a.FSAL, 1);
	memcpy(&fb, &b.FSAL, 1);
	if (a.order != b.order || a.order2 != b.order2 || fa != fb || fa > 1 || memcmp(&a.gamma, &b.gamma, sizeof a.gamma) || std::string(a.name) != b.name)
		h.fail("%s code %d: lookup leaves a scalar undefined (order %d/%d, embedded %d/%d, gamma %g/%g)", fam, code, (int)a.order, (int)b.order,
		       (int)a.order2, (int)b.order2, a.gamma, b.gamma);
	if (std::abs((long)a.order) > 1000 || std::abs((long)a.order2) > 1000 || !(std::fabs(a.gamma) < 1000))
		h.fail("%s code %d: order %d, embedded %d, gamma %g", fam, code, (int)a.order, (int)a.order2, a.gamma);
	if (!eqm(a.A, b.A) || !eqm(a.b, b.b) || !eqm(a.c, b.c) || !eqm(a.b2, b.b2)) h.fail("%s code %d: two lookups differ", fam, code);
	if (m && std::string(a.name) != m->n) h.fail("%s code %d: name is '%s', not %s", fam, code, std::string(a.name).c_str(), m->n);
	if (m && m->implemented && !ok(a)) h.fail("%s is rejected by the size check", m->n);
	if (!m && ok(a)) h.fail("%s code %d names no method but the check accepts its set", fam, code);
	(void)expl;
}
template <class C, class V> static void sizes(H &h, const char *fam, C base, V ok, bool expl)
{
	int d[4], mx = h.coin() ? 5 : 16, how = h.i(0, 3);
	for (int k = 0; k < 4; ++k) d[k] = how < 3 && k ? d[0] : h.i(0, mx);
	if (how == 1) d[h.i(0, 3)] = h.i(0, mx);
	if (how == 2) {
		// as many entries in another shape, or no dimension in common
		int n = d[0] * d[0], k = 1 + h.i(0, std::max(0, n - 1));
		if (h.coin() && n && n % k == 0) { d[2] = k; d[3] = n / k; }
		else { d[2] = h.i(0, mx); d[3] = h.coin() ? d[2] : h.i(0, mx); }
	}
	base.b.set_size(d[0]); base.b.fill(1);
	base.c.set_size(d[1]); base.c.fill(1);
	base.A.zeros(d[2], d[3]);
	for (int i = 0; i < d[2]; ++i)
		for (int j = 0; j < d[3]; ++j)
			if (!expl || j < i) base.A(i, j) = h.u(-1, 1);
	bool want = d[0] && d[0] == d[1] && d[0] == d[2] && d[0] == d[3];
	if (want && h.coin()) {
		int i = h.i(0, d[0] - 1), j = h.i(0, d[0] - 1);
		const double vals[] = {1e-3, -1, 1, -1e-12, 1e-300, 5e-324, -2.5e8};
		base.A(i, j) = vals[h.i(0, 6)];
		if (expl && j >= i) want = false;
	}
	if (ok(base) != want)
		h.fail("%s size check %s b %d, c %d, A %dx%d", fam, want ? "rejects" : "accepts", d[0], d[1], d[2], d[3]);
}
template <class O> static void common(H &h, const char *f, O &o)
{
	if (o.internal_solver != 1 || o.rel_tol != 1e-4 || o.abs_tol != 1e-3 || o.max_dt != 0 || o.max_steps != -1 || o.out_interval != 0 ||
	    o.time_internals || !o.adaptive_step_size || o.extrapolate_stage || o.newton_opts)
		h.fail("%s default options: solver %d, tolerances %g %g, max_dt %g, max_steps %ld", f, (int)o.internal_solver, o.rel_tol, o.abs_tol,
		       o.max_dt, (long)o.max_steps);
}
static void c14(H &h)
{
	auto eg = [](int k) { return erk::get_coefficients(k); };
	auto ev = [](const erk::solver_coeffs &c) { return erk::verify_solver_coeffs(c); };
	auto ig = [](int k) { return irk::get_coefficients(k); };
	auto iv = [](const irk::solver_coeffs &c) { return irk::verify_solver_coeffs(c); };
	for (auto &m : EM) lookup(h, "erk", eg, ev, m.code, &m, true);
	for (auto &m : IM) lookup(h, "irk", ig, iv, m.code, &m, false);
	int special[] = {-1, 0, 1, 2, 9, 10, 100, 1000, 2147483647, -2147483647 - 1};
	for (int k = 0; k < 20; ++k) {
		int code = k < 10 ? special[k] : k < 15 ? h.i(-5, 400) : (int)h.g();
		const M *e = nullptr, *i = nullptr;
		for (auto &m : EM) if (m.code == code) e = &m;
		for (auto &m : IM) if (m.code == code) i = &m;
		lookup(h, "erk", eg, ev, code, e, true);
		lookup(h, "irk", ig, iv, code, i, false);
	}
	for (int k = 0; k < 200; ++k) {
		sizes(h, "erk", erk::solver_coeffs(), ev, true);
		sizes(h, "irk", irk::solver_coeffs(), iv, false);
	}
	poison(0x77);
	auto a = erk::default_solver_options();
	poison(0x11);
	auto b = irk::default_solver_options();
	common(h, "erk", a);
	common(h, "irk", b);
	if (!b.use_newton_iters_adaptive_step || b.verbose_newton) h.fail("irk default options changed");
}

// -------------------------------------------------------------------------- C15
static L lagint(const std::vector<L> &c, int j, L th)
{
	std::vector<L> p(1, 1);
	L den = 1;
	for (int k = 0; k < (int)c.size(); ++k) {
		if (k == j) continue;
		den *= c[j] - c[k];
		std::vector<L> q(p.size() + 1, 0);
		for (size_t i = 0; i < p.size(); ++i) { q[i + 1] += p[i]; q[i] -= p[i] * c[k]; }
		p = q;
	}
	L r = 0, t = th;
	for (size_t i = 0; i < p.size(); ++i, t *= th) r += p[i] / (i + 1) * t;
	return r / den;
}
static void dense(H &h, const char *what, const mat &bi, const vec &c, double tol)
{
	int s = c.n_elem;
	if ((int)bi.n_rows != s || (int)bi.n_cols != s) { h.fail("%s: dense output is %dx%d for %d stages", what, (int)bi.n_rows, (int)bi.n_cols, s); return; }
	std::vector<L> cs(c.begin(), c.end());
	irk::solver_coeffs ic;
	ic.b = c; ic.b_interp = bi;
	erk::solver_coeffs ec;
	ec.b = c; ec.b_interp = bi;
	for (int k = 0; k < 4; ++k) {
		double th = k == 0 ? 0 : k == 1 ? 1 : h.u(-0.5, 1.5);
		vec w = irk::project_b(th, ic), w2 = erk::project_b(th, ec);
		if ((int)w.n_elem != s || (int)w2.n_elem != s) { h.fail("%s: %d weights for %d stages", what, (int)w.n_elem, s); return; }
		for (int j = 0; j < s; ++j) {
			L x = 0, sc = 1;
			for (int i = 0; i < s; ++i) { L t = bi(j, i) * std::pow((L)th, s - i); x += t; sc += std::fabs(t); }
			if (std::fabs(w(j) - x) > 1e-10 * sc || std::fabs(w2(j) - x) > 1e-10 * sc)
				h.fail("%s: weight %d at %g is %.15g / %.15g, coefficients give %.15g", what, j, th, w(j), w2(j), (double)x);
			L e = lagint(cs, j, th);
			if (std::fabs(x - e) > tol * sc) h.fail("%s: b_%d(%g) = %.15g, integral of the basis polynomial is %.15g", what, j, th, (double)x, (double)e);
		}
	}
}
static void c15(H &h)
{
	for (const M &m : IM) {
		auto c = irk::get_coefficients(m.code);
		if (!irk::verify_solver_coeffs(c) || c.b_interp.is_empty()) continue;
		dense(h, m.n, c.b_interp, c.c, 1e-9);
		int s = c.b.n_elem;
		if (stage(c.A, c.c, s) == s && (int)c.b_interp.n_rows == s && (int)c.b_interp.n_cols == s)
			for (int j = 0; j < s; ++j) {
				L x = 0;
				for (int i = 0; i < s; ++i) x += c.b_interp(j, i);
				if (!cl(x, c.b(j), 1e-8)) h.fail("%s: b_%d(1) = %.15g, weight is %.15g", m.n, j, (double)x, c.b(j));
			}
	}
	for (int k = 0; k < 50; ++k) {
		int s = h.i(1, 6);
		vec c(s);
		double lo = h.u(-0.3, 0.2);
		for (int i = 0; i < s; ++i) c(i) = lo += h.u(0.1, 0.4);
		if (h.coin()) c = arma::reverse(c);
		if (h.coin()) c(0) = s == 1 || c(1) > 0.05 || c(1) < -0.05 ? 0 : c(0);
		bool dis = true;
		for (int i = 0; i < s; ++i) for (int j = 0; j < i; ++j) dis = dis && std::fabs(c(i) - c(j)) > 0.05;
		if (!dis) continue;
		dense(h, "arbitrary nodes", irk::collocation_interpolate_coeffs(c), c, 1e-7);
	}
}

// -------------------------------------------------------------------------- C17
template <class N, class C, class A> static void names(H &h, const char *fam, const std::vector<M> &ms, N nm, C code, A all)
{
	std::set<int> codes;
	std::set<std::string> ns;
	for (auto &m : ms) { codes.insert(m.code); ns.insert(m.n); }
	if (codes.size() != ms.size()) h.fail("%s: two methods share a code", fam);
	int bad = h.coin() ? h.i(-5, 400) : (int)h.g();
	for (int r = 0; r < 6; ++r) {
		int what = h.i(0, 3);
		if (what == 0 && !codes.count(bad)) {
			std::string s = nm(bad);
			if (ns.count(s)) h.fail("%s: unknown code %d is given the name %s", fam, bad, s.c_str());
		}
		if (what == 1) {
			std::string s(h.i(0, 6), 'a');
			if (h.coin()) { s = ms[h.i(0, ms.size() - 1)].n; if (h.coin()) s += 'X'; else s.erase(s.size() - 1); }
			if (!ns.count(s)) {
				int c = code(s);
				if (codes.count(c)) h.fail("%s: unknown name '%s' is given the code %d", fam, s.c_str(), c);
				std::string t = nm(c);
				if (ns.count(t)) h.fail("%s: code of unknown name '%s' is named %s", fam, s.c_str(), t.c_str());
			}
		}
		for (auto &m : ms) {
			std::string s = nm(m.code);
			if (s != m.n) h.fail("%s: code %d is named '%s', not %s", fam, m.code, s.c_str(), m.n);
			if (code(m.n) != m.code) h.fail("%s: %s has code %d, not %d", fam, m.n, code(m.n), m.code);
		}
		auto v = all();
		std::multiset<std::string> have(v.begin(), v.end()), want(ns.begin(), ns.end());
		if (have != want) h.fail("%s: the list of names has %d entries, %d methods are offered (or they differ)", fam, (int)v.size(), (int)ms.size());
	}
}
static void c17(H &h)
{
	names(h, "erk", EM, [](int k) { return std::string(erk::method_to_name(k)); }, [](const std::string &s) { return erk::name_to_method(s); },
	      []() { return erk::all_method_names(); });
	names(h, "irk", IM, [](int k) { return std::string(irk::method_to_name(k)); }, [](const std::string &s) { return irk::name_to_method(s); },
	      []() { return irk::all_method_names(); });
}

int run(H &h)
{
	std::map<std::string, void (*)(H &)> m = {{"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C17", c17}};
	auto it = m.find(h.id);
	if (it == m.end()) return 2;
	long n = 0, mx = h.id == "C12" || h.id == "C13" ? 1 : 20000;
	while (h.more() && n++ < mx) {
		++h.cases;
		it->second(h);
	}
	return 0;
}
