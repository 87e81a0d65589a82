// Concrete counterpart of the specifications: runs the real code on random and
// chosen inputs and evaluates the property on what it returns.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>

// a case that does not come back: reported as a failure where the property promises
// an answer, otherwise the run just ends there
struct Watch {
	static char *msg() { static char m[600]; return m; }
	static void hit(int)
	{
		if (msg()[0] && write(1, msg(), strlen(msg())) > 0) _exit(1);
		if (write(1, "DONE interrupted\n", 17) < 0) _exit(3);
		_exit(0);
	}
	explicit Watch(int sec, const std::string &fail = "")
	{
		snprintf(msg(), 600, fail.empty() ? "" : "FAIL %s\n", fail.c_str());
		signal(SIGALRM, hit);
		alarm(sec);
	}
	~Watch() { alarm(0); }
};

struct H {
	std::string id;
	std::mt19937_64 g;
	std::chrono::steady_clock::time_point end;
	std::set<std::string> allowed;
	long cases = 0;
	int fails = 0;
	bool more() { return fails < 5 && std::chrono::steady_clock::now() < end; }
	double u(double a, double b) { return std::uniform_real_distribution<double>(a, b)(g); }
	int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(g); }
	bool coin() { return g() & 1; }
	void fail(const char *f, ...)
	{
		va_list ap;
		va_start(ap, f);
		char buf[1500];
		vsnprintf(buf, sizeof buf, f, ap);
		va_end(ap);
		for (char *p = buf; *p; ++p)
			if (*p == '\n') *p = ' ';
		++fails;
		printf("FAIL %s\n", buf);
		fflush(stdout);
	}
	bool known(const std::string &k) { return allowed.count(k) > 0; }
};

inline bool near(double a, double b, double tol = 1e-9)
{
	if (a == b) return true;
	return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}

int run(H &h);

int main(int argc, char **argv)
{
	if (argc < 4) return 2;
	H h;
	h.id = argv[1];
	h.g.seed(std::strtoull(argv[2], nullptr, 10));
	h.end = std::chrono::steady_clock::now() + std::chrono::seconds(atoi(argv[3]));
	for (int k = 4; k < argc; ++k) h.allowed.insert(argv[k]);
	std::cerr.setstate(std::ios::failbit);
	int r = run(h);
	printf("DONE %s cases=%ld fails=%d\n", h.id.c_str(), h.cases, h.fails);
	fflush(stdout);
	return r || h.fails ? 1 : 0;
}
