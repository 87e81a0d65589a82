#include "common.hpp"
#include "rehuel.hpp"
#include "cyclic_buffer.hpp"
#include <deque>
#include <sys/time.h>

using arma::vec;

static vec rv(H &h, int n)
{
	vec v(n);
	for (int i = 0; i < n; ++i) v(i) = h.u(-3, 3);
	return v;
}
static bool same(const vec &a, const vec &b)
{
	if (a.n_elem != b.n_elem) return false;
	for (arma::uword i = 0; i < a.n_elem; ++i)
		if (a(i) != b(i)) return false;
	return true;
}
template <class T> static bool cat(const std::vector<T> &m, const std::vector<T> &a, const std::vector<T> &b,
                                   bool (*eq)(const T &, const T &))
{
	if (m.size() != a.size() + b.size()) return false;
	for (size_t i = 0; i < m.size(); ++i)
		if (!eq(m[i], i < a.size() ? a[i] : b[i - a.size()])) return false;
	return true;
}
static bool veq(const vec &a, const vec &b) { return same(a, b); }
static bool deq(const double &a, const double &b) { return a == b; }

static irk::rk_output rsol(H &h)
{
	irk::rk_output s;
	int n = h.i(0, 9) ? h.i(0, 5) : h.i(6, 300), d = h.i(1, 3), ns = h.i(1, 3);
	s.status = h.i(0, 255);
	// nothing makes the lists agree in length
	auto len = [&] { return h.i(0, 3) ? n : h.i(0, 5); };
	for (int i = n; i--;) s.t_vals.push_back(h.u(0, 9));
	for (int i = len(); i--;) s.y_vals.push_back(rv(h, d));
	for (int i = len(); i--;) s.stages.push_back(rv(h, d * ns));
	for (int i = len(); i--;) s.err_est.push_back(rv(h, d));
	for (int i = len(); i--;) s.err.push_back(h.u(0, 2));
	s.elapsed_time = h.u(0, 100);
	s.accept_frac = h.u(0, 1);
	size_t *c[] = {&s.count.attempt, &s.count.reject_newton, &s.count.reject_err, &s.count.newton_success,
	               &s.count.newton_incr_diverge, &s.count.newton_iter_error_too_large, &s.count.newton_maxit_exceed,
	               &s.count.fun_evals, &s.count.jac_evals};
	for (size_t *p : c) *p = h.i(0, 1000000) * 100ull;
	return s;
}
static bool eqs(const irk::rk_output &a, const irk::rk_output &b)
{
	irk::rk_output e;
	return a.status == b.status && cat(a.t_vals, b.t_vals, e.t_vals, deq) && cat(a.y_vals, b.y_vals, e.y_vals, veq) &&
	       cat(a.stages, b.stages, e.stages, veq) && cat(a.err_est, b.err_est, e.err_est, veq) &&
	       cat(a.err, b.err, e.err, deq) && a.elapsed_time == b.elapsed_time && a.accept_frac == b.accept_frac &&
	       !memcmp(&a.count, &b.count, sizeof a.count);
}
static void c16(H &h)
{
	irk::rk_output a = rsol(h), b = h.i(0, 4) ? rsol(h) : a;
	if (a.t_vals.empty() && b.t_vals.empty()) return; // no average of no points
	irk::rk_output a0 = a, b0 = b;
	irk::rk_output m = irk::merge_rk_output(a, b);
	std::string bad;
	if (!cat(m.t_vals, a.t_vals, b.t_vals, deq)) bad += " t_vals";
	if (!cat(m.y_vals, a.y_vals, b.y_vals, veq)) bad += " y_vals";
	if (!cat(m.stages, a.stages, b.stages, veq)) bad += " stages";
	if (!cat(m.err_est, a.err_est, b.err_est, veq)) bad += " err_est";
	if (!cat(m.err, a.err, b.err, deq)) bad += " err";
	if (m.status != (a.status | b.status)) bad += " status";
	if (!near(m.elapsed_time, a.elapsed_time + b.elapsed_time)) bad += " elapsed_time";
	double n1 = a.t_vals.size(), n2 = b.t_vals.size();
	if (!near(m.accept_frac, (n1 * a.accept_frac + n2 * b.accept_frac) / (n1 + n2))) bad += " accept_frac";
#define CNT(x) if (m.count.x != a.count.x + b.count.x) bad += " count." #x;
	CNT(attempt) CNT(reject_newton) CNT(reject_err) CNT(newton_success) CNT(newton_incr_diverge)
	CNT(newton_iter_error_too_large) CNT(newton_maxit_exceed) CNT(fun_evals) CNT(jac_evals)
	if (!eqs(a, a0) || !eqs(b, b0)) bad += " argument-modified";
	if (!bad.empty())
		h.fail("merge of solutions with %d and %d points (status %d, %d): wrong%s", (int)n1, (int)n2, a.status,
		       b.status, bad.c_str());
}

static void c28(H &h)
{
	irk::coeff_list a(h.i(0, 4)), b(h.i(0, 4)), w;
	for (auto &x : a)
		for (int k = h.i(0, 3); k--;) x.push_back(h.i(-1, 9));
	for (auto &x : b)
		for (int k = h.i(0, 3); k--;) x.push_back(h.i(-1, 9));
	if (!h.i(0, 5)) b = a;
	irk::coeff_list a0 = a, b0 = b;
	for (auto &x : a)
		for (auto &y : b) {
			w.push_back(x);
			for (int k : y) w.back().push_back(k);
		}
	irk::coeff_list r = irk::expand(a, b);
	if (r != w || a != a0 || b != b0) {
		std::ostringstream o;
		irk::operator<<(o, a0);
		o << " x ";
		irk::operator<<(o, b0);
		o << " -> ";
		if (r.size()) irk::operator<<(o, r);
		h.fail("expand: %s (expected %d terms)", o.str().c_str(), (int)w.size());
	}
}

static void c29(H &h)
{
	output_options d;
	if (!d.store_in_vectors() || d.write_to_file() || d.output_interval != 1)
		h.fail("default output options: store %d stream %d interval %d", d.store_in_vectors(), d.write_to_file(),
		       (int)d.output_interval);
	output_options o;
	o.output_stream = nullptr;
	std::ostringstream s1, s2;
	bool st = true, wr = false;
	std::ostream *want = nullptr;
	std::string tr;
	if (h.coin()) {
		size_t hi = h.i(0, 8) * 4;
		int m = h.i(0, 3);
		o.output_mode = hi + m;
		st = m & 1;
		wr = m & 2;
		tr = "start at mode " + std::to_string(o.output_mode) + ";";
	}
	for (int k = h.i(0, 6); k >= 0; --k) {
		if (o.store_in_vectors() != st || o.write_to_file() != wr || (want && o.output_stream != want) ||
		    o.output_interval != 1) {
			h.fail("output options after %s store %d (want %d) stream %d (want %d)", tr.c_str(), o.store_in_vectors(),
			       st, o.write_to_file(), wr);
			return;
		}
		switch (h.i(0, 2)) {
		case 0: o.enable_store_in_vectors(); st = true; tr += " enable"; break;
		case 1: o.disable_store_in_vectors(); st = false; tr += " disable"; break;
		default:
			want = h.coin() ? &s1 : &s2;
			o.set_output_stream(*want);
			wr = true;
			tr += " stream";
		}
	}
}

struct ModelBuf {
	std::deque<int> q;
	long p;
	void push(int x)
	{
		q.push_front(x);
		if ((long)q.size() > p) q.pop_back();
	}
};
static std::string diff(cyclic_buffer<int> &b, const ModelBuf &m)
{
	std::ostringstream o;
	if ((long)b.size() != (long)m.q.size()) o << "size " << b.size() << " want " << m.q.size();
	else if (b.empty() != m.q.empty()) o << "empty() " << b.empty();
	else if ((long)b.period() != m.p) o << "period " << b.period() << " want " << m.p;
	else {
		const cyclic_buffer<int> &cb = b;
		for (size_t i = 0; i < m.q.size(); ++i)
			if (b[i] != m.q[i] || cb[i] != m.q[i]) {
				o << "element " << i << " is " << b[i] << " want " << m.q[i];
				return o.str();
			}
		size_t i = 0;
		for (auto it = b.begin(); it != b.end(); ++it, ++i) {
			if (i >= m.q.size() || *it != m.q[i]) {
				o << "iteration differs at " << i;
				return o.str();
			}
		}
		if (i != m.q.size()) o << "iteration yields " << i << " of " << m.q.size();
	}
	return o.str();
}
static void c22(H &h)
{
	ModelBuf m;
	m.p = h.i(1, 6);
	cyclic_buffer<int> b(m.p);
	std::string tr = "period " + std::to_string(m.p) + ":";
	int next = 1;
	for (int k = h.i(0, 40); k >= 0; --k) {
		std::string d = diff(b, m);
		if (!d.empty()) {
			h.fail("cyclic buffer, %s %s", tr.c_str(), d.c_str());
			return;
		}
		int op = h.i(0, 19);
		if (op < 14) {
			tr += " push " + std::to_string(next);
			m.push(next);
			b.push_back(next++);
		} else if (op < 16) {
			int p = h.i(1, 6);
			tr += " resize " + std::to_string(p);
			b.resize(p);
			m.p = p;
			m.q.clear();
		} else if (op == 16) {
			cyclic_buffer<int> c(b);
			ModelBuf mc = m;
			tr += " copy";
			for (int q = h.i(0, 5); q--;) {
				c.push_back(1000 + next);
				mc.push(1000 + next++);
			}
			std::string e = diff(c, mc);
			if (!e.empty()) {
				h.fail("copied cyclic buffer, %s pushed on the copy: %s", tr.c_str(), e.c_str());
				return;
			}
		} else if (op == 17) {
			ModelBuf mc;
			mc.p = h.i(1, 6);
			cyclic_buffer<int> c(mc.p);
			for (int q = h.i(0, 9); q--;) {
				c.push_back(2000 + next);
				mc.push(2000 + next++);
			}
			tr += " assign from period " + std::to_string(mc.p) + " holding " + std::to_string(mc.q.size());
			b = c;
			m = mc;
			c.push_back(7);
			mc.push(7);
			std::string e = diff(c, mc);
			if (!e.empty()) {
				h.fail("source of an assignment, %s: %s", tr.c_str(), e.c_str());
				return;
			}
		} else if (op == 18) {
			tr += " self-assign";
			b = *&b;
		} else if (!m.q.empty()) {
			int i = h.i(0, m.q.size() - 1);
			tr += " set " + std::to_string(i);
			/* reading through a const view must agree as well */
			const cyclic_buffer<int> &cb = b;
			if (cb[i] != m.q[i]) {
				h.fail("cyclic buffer, %s const element differs", tr.c_str());
				return;
			}
		}
	}
}

static timeval next_tv[2];
static int tv_n = -1;
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
	if (tv_n < 0) {
		struct timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		tv->tv_sec = ts.tv_sec;
		tv->tv_usec = ts.tv_nsec / 1000;
		return 0;
	}
	*tv = next_tv[tv_n < 1 ? 0 : 1];
	++tv_n;
	return 0;
}
static void c30(H &h)
{
	{
		std::ostringstream o;
		timeval a = {1000 + h.i(0, 100), h.i(0, 999999)}, b = {a.tv_sec + h.i(0, 5), h.i(0, 999999)};
		if (h.coin()) b.tv_sec = a.tv_sec + h.i(0, 100000);
		double want = (b.tv_sec - a.tv_sec) * 1000.0 + (b.tv_usec - a.tv_usec) * 1e-3;
		my_timer q, p(o);
		next_tv[0] = a;
		next_tv[1] = b;
		tv_n = 0;
		q.tic();
		double r1 = q.toc();
		tv_n = 0;
		p.tic();
		double r2 = p.toc("msg", "post");
		tv_n = 0;
		q.enable_output(o);
		q.tic();
		double r3 = q.toc("x");
		q.disable_output();
		tv_n = 1;
		double r4 = q.get_elapsed(a);
		tv_n = -1;
		if (!near(r1, want) || !near(r2, want) || !near(r3, want) || !near(r4, want))
			h.fail("timer from %ld.%06ld to %ld.%06ld: %.17g %.17g %.17g %.17g want %.17g ms", (long)a.tv_sec,
			       (long)a.tv_usec, (long)b.tv_sec, (long)b.tv_usec, r1, r2, r3, r4, want);
		// the numbers it printed, each with the unit that follows it
		std::istringstream in(o.str());
		std::string w, last;
		int ms = 0;
		while (in >> w) {
			while (!w.empty() && strchr("(),.;", w[0])) w = w.substr(1);
			while (!w.empty() && strchr("(),.;", w.back())) w.pop_back();
			bool m = w == "ms", sec = w == "s";
			if (m || sec) {
				double x = atof(last.c_str()), y = m ? want : want / 1000;
				ms += m;
				if (std::fabs(x - y) > 2e-5 * (std::fabs(y) + 1e-9)) h.fail("a difference of %.17g ms is printed as %s %s", want, last.c_str(), w.c_str());
			}
			last = w;
		}
		if (ms != 2) h.fail("two measurements with an output stream printed %d differences", ms);
	}
	{
		std::vector<double> t(7, 0.0);
		double sc = h.coin() ? 50 : 5000;
		for (int k = 0; k < 6; ++k) t[k] = h.u(0.01, sc);
		double tot = 0;
		for (double x : t) tot += x;
		std::ostringstream o;
		o.precision(12);
		irk::print_timing_breakdown(t, o, "M");
		std::string s = o.str();
		bool secs = tot > 1000;
		double f = secs ? 1e-3 : 1.0;
		std::istringstream in(s);
		std::string l;
		std::getline(in, l);
		bool named_s = l.find("( s |") != std::string::npos, named_ms = l.find("(ms |") != std::string::npos;
		if (named_s == named_ms || named_s != secs) h.fail("timing table for total %g ms names the wrong unit: %s", tot, l.c_str());
		for (int k = -1; k < 6 && std::getline(in, l); ++k) {
			size_t c = l.find(':'), b = l.find('|');
			double v = atof(l.c_str() + c + 1), p = atof(l.c_str() + b + 1);
			double w = (k < 0 ? tot : t[k]) * f, wp = 100 * (k < 0 ? 1.0 : t[k] / tot);
			if (std::fabs(v - w) > 6e-3 * std::fabs(w) || std::fabs(p - wp) > 6e-3 * std::fabs(wp))
				h.fail("timing table, total %g ms, line %d: '%s' should be %g | %g", tot, k, l.c_str(), w, wp);
		}
	}
	{
		const char *n[] = {"SUCCESS", "INCREMENT_DIVERGE", "ITERATION_ERROR_TOO_LARGE", "MAXIT_EXCEEDED", "GENERIC_ERROR"};
		int codes[] = {newton::SUCCESS, newton::INCREMENT_DIVERGE, newton::ITERATION_ERROR_TOO_LARGE, newton::MAXIT_EXCEEDED,
		               newton::GENERIC_ERROR};
		for (int k = 0; k < 5; ++k)
			if (std::string(newton::status_message(codes[k])) != n[k])
				h.fail("status text of %s is %s", n[k], newton::status_message(codes[k]));
		int c = h.coin() ? h.i(-10, 40) : (int)(h.g() & 0x7fffffff) * (h.coin() ? 1 : -1);
		bool isk = false;
		for (int q : codes) isk |= q == c;
		std::string t = newton::status_message(c);
		if (!isk)
			for (const char *q : n)
				if (t == q) h.fail("unknown status %d has the text of %s", c, q);
	}
	{
		double v = h.u(-1, 1) * std::pow(10, h.i(-20, 20));
		size_t w = h.i(0, 30);
		char fill = h.coin() ? ' ' : '*';
		std::ostringstream a;
		a << std::scientific << v;
		std::string txt = a.str(), r = newton::to_fixed_w_string(v, w, fill);
		size_t p = r.find(txt);
		if (p != 0 || r != txt + std::string(w > txt.size() ? w - txt.size() : 0, fill)) h.fail("padding %g to %d gives '%s'", v, (int)w, r.c_str());
	}
}

int run(H &h)
{
	std::map<std::string, void (*)(H &)> m = {{"C16", c16}, {"C22", c22}, {"C28", c28}, {"C29", c29}, {"C30", c30}};
	auto it = m.find(h.id);
	if (it == m.end()) return 2;
	long n = 0;
	while (h.more() && n++ < 200000) {
		++h.cases;
		it->second(h);
	}
	return 0;
}
