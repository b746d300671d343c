#include "nbody_data.h"
#include "nbody_engine_simple.h"
#include "common.h"
#include <QDebug>
static void quiet(QtMsgType, const QMessageLogContext&, const QString&) {}
struct St { ld P[3], L[3], V[3], K, U; };
static St stats(const nbody_data& d)
{
	St s; memset(&s, 0, sizeof s); size_t n = d.get_count(); ld M = 0;
	for(int q = 0; q < 3; ++q) s.P[q] = s.L[q] = s.V[q] = 0; s.K = s.U = 0;
	for(size_t i = 0; i < n; ++i)
	{
		const nbvertex_t& r = d.get_vertites()[i]; const nbvertex_t& v = d.get_velosites()[i]; ld m = d.get_mass()[i]; ld x[3] = {r.x, r.y, r.z}, u[3] = {v.x, v.y, v.z}; M += m;
		for(int q = 0; q < 3; ++q) { s.P[q] += m * u[q]; s.V[q] += m * x[q]; s.L[q] += m * (x[(q + 1) % 3] * u[(q + 2) % 3] - x[(q + 2) % 3] * u[(q + 1) % 3]); s.K += m * u[q] * u[q] / 2; }
		for(size_t j = 0; j < i; ++j) { const nbvertex_t& w = d.get_vertites()[j]; ld a = r.x - w.x, b = r.y - w.y, c = r.z - w.z, r2 = a * a + b * b + c * c; if(r2 >= 1e-8L) s.U -= m * d.get_mass()[j] / sqrtl(r2); }
	}
	for(int q = 0; q < 3; ++q) s.V[q] /= M; return s;
}
static bool nv(const nbvertex_t& g, const ld* w, ld sc) { return near(g.x, w[0], sc, 1e-11L) && near(g.y, w[1], sc, 1e-11L) && near(g.z, w[2], sc, 1e-11L); }
static ld len(const ld* a, const ld* b) { return sqrtl((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
static void one(size_t n, int kind, const std::string& list, bool eng)
{
	std::string w = cat("n=", n, " kind=", kind, " list=", list, eng ? " engine" : ""); CASE(w);
	nbody_data d; fill_data(d, n, kind); if(list != "default") d.set_check_list(QString::fromStdString(list)); bool P = list.find('P') != std::string::npos || list == "default", L = list.find('L') != std::string::npos || list == "default", E = list.find('E') != std::string::npos && list != "default", V = list.find('V') != std::string::npos || list == "default";
	d.set_time(rnd()); d.set_step(rndi(9)); nbody_engine_simple e; if(eng) e.init(&d);
	St i0, last; memset(&i0, 0, sizeof i0); memset(&last, 0, sizeof last); ld sc = 0;
	for(int r = 0; r < 4; ++r)
	{
		nbody_data m; fill_data(m, n, r == 2 ? 0 : kind);
		if(eng) { std::vector<double> y(6 * n); for(size_t i = 0; i < n; ++i) { nbvertex_t a = m.get_vertites()[i], b = m.get_velosites()[i]; double q[6] = {a.x, a.y, a.z, b.x, b.y, b.z}; for(int k = 0; k < 6; ++k) y[k * n + i] = q[k]; } e.write_buffer(e.get_y(), y.data()); }
		if(r || eng) for(size_t i = 0; i < n; ++i) { if(!eng) { d.get_vertites()[i] = m.get_vertites()[i]; d.get_velosites()[i] = m.get_velosites()[i]; } d.get_mass()[i] = m.get_mass()[i]; }
		nbody_data before(d); d.print_statistics(eng ? &e : nullptr); std::string w2 = cat(w, " call ", r);
		if(!eng) CHECK(d.is_equal(before), "bodies unchanged", w2); else { bool ok = true; for(size_t i = 0; i < n; ++i) ok = ok && d.get_vertites()[i] == m.get_vertites()[i] && d.get_velosites()[i] == m.get_velosites()[i] && d.get_mass()[i] == m.get_mass()[i]; CHECK(ok, "bodies are those of the engine", w2); }
		CHECK(d.get_time() == before.get_time() && d.get_step() == before.get_step(), "clock unchanged", w2);
		St s = stats(d); if(!P) for(auto& q : s.P) q = 0; if(!L) for(auto& q : s.L) q = 0; if(!V) for(auto& q : s.V) q = 0; if(!E) s.K = s.U = 0; if(!r) i0 = s;
		last = s; ld sp = 0, sl = 0, sv = 0; for(size_t i = 0; i < n; ++i) { ld a = d.get_velosites()[i].length(), b = d.get_vertites()[i].length(), mm = d.get_mass()[i]; sp += mm * a; sl += mm * a * b; sv += b; } sp += len(i0.P, s.P) * 0; static ld mp, ml, mv, me; if(!r) mp = ml = mv = me = 0; mp = std::max(mp, sp); ml = std::max(ml, sl); mv = std::max(mv, sv); me = std::max(me, fabsl(s.K) + fabsl(s.U)); (void)sc;
		CHECK(nv(d.get_last_total_impulce(), s.P, mp), "momentum", w2); CHECK(nv(d.get_last_total_impulce_moment(), s.L, ml), "angular momentum", w2); CHECK(nv(d.get_last_mass_center(), s.V, mv), "mass center", w2);
		CHECK(near(d.get_last_total_energy(), s.K + s.U, me, 1e-10L), "energy", cat(w2, " got ", d.get_last_total_energy(), " want ", double(s.K + s.U)));
		CHECK(nv(d.get_initial_impulce(), i0.P, mp) && nv(d.get_initial_impulce_moment(), i0.L, ml) && nv(d.get_initial_mass_center(), i0.V, mv) && near(d.get_initial_energy(), i0.K + i0.U, me, 1e-10L), "initial values are those of the first call", w2);
		ld z[3] = {0, 0, 0};
		if(P && len(i0.P, z) > 1e-3L * mp) CHECK(near(d.get_impulce_err(), 100 * len(s.P, i0.P) / len(i0.P, z), 100 * mp / len(i0.P, z), 1e-10L), "momentum deviation in percent", w2);
		if(L && len(i0.L, z) > 1e-3L * ml) CHECK(near(d.get_impulce_moment_err(), 100 * len(s.L, i0.L) / len(i0.L, z), 100 * ml / len(i0.L, z), 1e-10L), "angular momentum deviation in percent", w2);
		if(E && fabsl(i0.K + i0.U) > 1e-3L * me) CHECK(near(d.get_energy_err(), 100 * fabsl((s.K + s.U - i0.K - i0.U) / (i0.K + i0.U)), 100 * me / fabsl(i0.K + i0.U), 1e-9L), "energy deviation in percent", w2);
	}
	SAMPLE(w);
}
static void history(int len_)
{
	// check list, clock, box and bodies change between the calls: the first call alone sets the initial values
	size_t n = 1 + rndi(6); nbody_data d; fill_data(d, n, 0); std::string h = cat("n=", n); CASE(h); nbvertex_t iP, iL, iV, lP, lL, lV; double iE = 0, lE = 0; bool done = false; std::string list = "PLV"; nbody_engine_simple e;
	for(int k = 0; k < len_; ++k)
	{
		int op = rndi(7);
		if(op == 0) { const char* L[] = {"PLVE", "P", "L", "V", "E", "", "EP", "VL"}; list = L[rndi(8)]; d.set_check_list(QString::fromStdString(list)); h += " list(" + list + ")"; }
		else if(op == 1) { d.set_time(rnd()); d.set_step(rndi(99)); d.advise_time(rnd()); h += " clock"; }
		else if(op == 2) { d.get_impulce_err(); d.get_energy_err(); d.get_impulce_moment_err(); h += " box"; }
		else if(op == 3) { d.add_body(nbvertex_t(rnd(), rnd(), rnd()), nbvertex_t(rnd(), rnd(), rnd()), 1 + fabs(rnd()), nbcolor_t()); h += " add"; }
		else if(op == 4) { for(size_t i = 0; i < d.get_count(); ++i) { d.get_vertites()[i] = nbvertex_t(rnd(), rnd(), rnd()); d.get_velosites()[i] = nbvertex_t(rnd(), rnd(), rnd()); } h += " move"; }
		else
		{
			d.print_statistics(nullptr); h += " stat"; St s = stats(d); auto has = [&](char c) { return list.find(c) != std::string::npos; };
			auto v = [](const ld* a) { return nbvertex_t(double(a[0]), double(a[1]), double(a[2])); };
			if(has('P')) lP = v(s.P); if(has('L')) lL = v(s.L); if(has('V')) lV = v(s.V); if(has('E')) lE = double(s.K + s.U);
			if(!done) { if(has('P')) iP = lP; if(has('L')) iL = lL; if(has('V')) iV = lV; if(has('E')) iE = lE; done = true; }
		}
		auto near3 = [](const nbvertex_t& a, const nbvertex_t& b) { return (a - b).length() <= 1e-9 * (1 + b.length()); };
		CHECK(near3(d.get_initial_impulce(), iP) && near3(d.get_initial_impulce_moment(), iL) && near3(d.get_initial_mass_center(), iV) && fabs(d.get_initial_energy() - iE) <= 1e-9 * (1 + fabs(iE)), "initial values are those of the first call", h);
		CHECK(near3(d.get_last_total_impulce(), lP) && near3(d.get_last_total_impulce_moment(), lL) && near3(d.get_last_mass_center(), lV) && fabs(d.get_last_total_energy() - lE) <= 1e-9 * (1 + fabs(lE)), "last values are those of the last call that computed them", h);
	}
}
static void thresholds()
{
	// pair potential around the softening distance
	for(double f : {0.5, 0.9, 0.99, 1.01, 1.5, 3., 100.})
	{
		nbody_data d; double r = 1e-4 * f; d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(), 2, nbcolor_t()); d.add_body(nbvertex_t(1, 2 + r, 3), nbvertex_t(), 3, nbcolor_t()); d.set_check_list("E"); d.print_statistics(nullptr); double rr = d.get_vertites()[1].y - 2; double want = rr * rr < 1e-8 ? 0 : -6 / rr;
		CHECK(near(d.get_last_total_energy(), want, fabsl(want), 1e-10L), "pair energy around the softening distance", cat("r=", rr, " got ", d.get_last_total_energy(), " want ", want));
		CHECK(near(d.potential_energy(d.get_vertites(), 0, 1), want, fabsl(want), 1e-10L) && d.potential_energy(d.get_vertites(), 1, 0) == d.potential_energy(d.get_vertites(), 0, 1), "pair energy", cat("r=", rr));
	}
	// large cancellation: the compensated sum keeps small terms
	nbody_data d; for(int i = 0; i < 4000; ++i) d.add_body(nbvertex_t(0, 0, 0), nbvertex_t(i == 0 ? 1e16 : 1, 0, 0), 1, nbcolor_t()); d.set_check_list("P"); d.print_statistics(nullptr);
	CHECK(d.get_last_total_impulce().x == 1e16 + 3999 + 1 || d.get_last_total_impulce().x == 1e16 + 3998, "compensated summation", cat("got ", d.get_last_total_impulce().x));
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv); qInstallMessageHandler(quiet);
	const char* lists[] = {"PLVE", "default", "E", "P", "L", "V", "EP", "LV", "", "VELP"};
	std::vector<size_t> ns; for(size_t n = 1; n <= (A.thorough ? 40u : 8u); ++n) ns.push_back(n); ns.push_back(33); ns.push_back(64); ns.push_back(100);
	for(size_t n : ns) for(int k = 0; k < 4; ++k) for(auto l : lists) for(int e = 0; e < 2; ++e) one(n, k, l, e);
	for(int k = 0; k < (A.thorough ? 20000 : 2000); ++k) history(14);
	thresholds();
	return DONE();
}
