// Shared by the concrete harnesses: deterministic random numbers, failure reporting, scratch state.
#ifndef NBV_COMMON_H
#define NBV_COMMON_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <iomanip>
typedef long double ld;
static uint64_t g_s = 88172645463325252ULL;
static inline uint64_t rnd64() { g_s ^= g_s << 13; g_s ^= g_s >> 7; g_s ^= g_s << 17; return g_s; }
static inline void rseed(uint64_t s) { g_s = 88172645463325252ULL ^ (s * 0x9E3779B97F4A7C15ULL + 12345); for(int i = 0; i < 8; ++i) rnd64(); }
static inline double rnd(double a = -1, double b = 1) { return a + (b - a) * (double(rnd64() >> 11) / 9007199254740992.0); }
static inline size_t rndi(size_t n) { return size_t(rnd64() % n); }
static long g_evals = 0, g_fails = 0, g_samples = 0;
static std::map<std::string, int> g_per;
static std::string g_case;
static void CASE(const std::string& s) { g_case = s; printf("CASE %s\n", s.c_str()); fflush(stdout); }
static void EVAL(long n = 1) { g_evals += n; }
static void FAIL(const std::string& chk, const std::string& det)
{
	++g_fails;
	if(++g_per[chk] <= 5) { printf("FAIL %s: %s [case %s]\n", chk.c_str(), det.c_str(), g_case.c_str()); fflush(stdout); }
}
static void SAMPLE(const std::string& s) { if(g_samples++ < 6) { printf("SAMPLE %s\n", s.c_str()); fflush(stdout); } }
static int DONE() { printf("EVALS %ld\nDONE\n", g_evals); fflush(stdout); return g_fails ? 1 : 0; }
template<class T> static std::string S(const T& v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }
static std::string cat() { return ""; }
template<class T, class... A> static std::string cat(const T& v, A... a) { return S(v) + cat(a...); }
static bool FAILF(const std::string& c, const std::string& d) { FAIL(c, d); return false; }
#define CHECK(ok, chk, det) (EVAL(), (ok) ? true : FAILF(chk, det))   /* the texts are built only on failure */
static bool near(ld a, ld b, ld scale, ld tol) { if(a == b) return true; return fabsl(a - b) <= tol * (scale > 0 ? scale : 1); }
struct Args { std::string tier, group, dir; long seed; bool thorough; };
static Args args(int argc, char** argv)
{
	Args a; a.tier = argc > 1 ? argv[1] : "quick"; a.seed = argc > 2 ? atol(argv[2]) : 1; a.group = argc > 3 ? argv[3] : "all"; a.dir = argc > 4 ? argv[4] : ".";
	a.thorough = a.tier == "thorough"; rseed(a.seed); return a;
}
#ifdef NBODY_DATA_H
static void fill_data(nbody_data& d, size_t n, int kind)
{
	for(size_t i = 0; i != n; ++i)
	{
		nbvertex_t r(rnd(), rnd(), rnd()), v(rnd(), rnd(), rnd());
		double m = rnd(0.1, 3);
		if(kind == 1) { r = nbvertex_t(rnd() * 100, rnd() * 1e-3, rnd() * 1e4); m = std::pow(10., rnd(-6, 6)); }
		if(kind == 2 && i % 3 == 1) { r = d.get_vertites()[i - 1]; }
		if(kind == 3 && i % 4 == 1) { r = d.get_vertites()[i - 1] + nbvertex_t(3e-5, -2e-5, 1e-5); }
		d.add_body(r, v, m, nbcolor_t(1, 1, 1, 1));
	}
}
#endif
#endif
