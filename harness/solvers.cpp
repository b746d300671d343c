// Concrete companion of C05-C09 and C20: the real solvers on a toy non-linear system against long double references.
#include "nbody_engine_simple.h"
#include "nbody_data.h"
#include "nbody_solvers.h"
#include "nbody_extrapolator.h"
#include "nbody_butcher_table.h"
#include "common.h"
#include <memory>
typedef std::vector<ld> V;
// derivative at time T0 + o; T0: time at the begin of the step
static ld T0 = 0;
static V f(const V& y, ld o)
{
	size_t n = y.size(); V r(n);
	for(size_t i = 0; i != n; ++i) r[i] = sinl(1.3L * y[i] + i) - 0.4L * y[(i + 1) % n] * y[i] + 0.2L * y[(i + 5) % n] + 0.3L * cosl(1.7L * (T0 + o) + i);
	return r;
}
struct toy : public nbody_engine_simple
{
	size_t evals = 0; bool log = false; std::vector<std::pair<V, V>> calls; ld scale = 1;
	void fcompute(const nbcoord_t& t, const memory* y, memory* r) override
	{
		size_t n = problem_size(); std::vector<double> b(n); read_buffer(b.data(), y);
		V v0(b.begin(), b.end()); for(ld& x : v0) x /= scale; V v = f(v0, ld(t) - T0); for(ld& x : v) x *= scale; for(size_t i = 0; i != n; ++i) b[i] = double(v[i]);
		if(log) { V a(n), q(n); read_buffer(b.data(), y); for(size_t i = 0; i != n; ++i) { a[i] = b[i]; b[i] = double(v[i]); q[i] = b[i]; } calls.push_back({a, q}); }
		write_buffer(r, b.data()); ++evals;
	}
};
static V axpy(const V& a, ld k, const V& b) { V r(a); for(size_t i = 0; i != a.size(); ++i) r[i] += k * b[i]; return r; }
static V half(const V& a, const V& b) { V r(a); for(size_t i = 0; i != a.size(); ++i) r[i] = (a[i] + b[i]) / 2; return r; }
static ld nrm(const V& a) { ld m = 0; for(ld x : a) m = std::max(m, fabsl(x)); return m; }
struct Rig
{
	nbody_data d; toy e; std::unique_ptr<nbody_solver> s; double t0;
	Rig(nbody_solver* sv, size_t n = 2, int kind = 0) : s(sv)
	{
		fill_data(d, n, kind); t0 = kind == 4 ? 12.5 : 0; d.set_time(t0);
		e.init(&d); s->set_engine(&e); s->set_time_step(0, 1);
	}
	V y() { std::vector<double> b(e.problem_size()); e.read_buffer(b.data(), e.get_y()); return V(b.begin(), b.end()); }
	void adv(double h) { T0 = e.get_time(); s->advise(h); }
	void set(const V& v) { std::vector<double> b(v.begin(), v.end()); e.write_buffer(e.get_y(), b.data()); }
};
static bool same(const V& a, const V& b, ld tol = 2e-12L) { for(size_t i = 0; i != a.size(); ++i) if(!near(a[i], b[i], std::max<ld>(1, fabsl(b[i])), tol)) return false; return true; }
static std::string diff(const V& a, const V& b) { std::string r; for(size_t i = 0; i != a.size() && i < 6; ++i) r += cat(double(a[i]), "/", double(b[i]), " "); return r; }
static nbody_solver* make(const char* n, QVariantMap p = QVariantMap()) { p["solver"] = n; return nbody_create_solver(p); }
static void expect(Rig& r, const V& want, ld dt, const std::string& what)
{
	V got = r.y();
	CHECK(same(got, want), what + ": new state", diff(got, want));
	CHECK(near(r.e.get_time(), r.t0 + dt, 1 + fabsl(r.t0 + dt), 1e-14L), what + ": time", cat(r.e.get_time(), " want ", double(r.t0 + dt)));
	SAMPLE(what);
}
// ------------------------------------------------------------------ references
static V euler(const V& y, ld h) { return axpy(y, h, f(y, 0)); }
static V midpoint(const V& y, ld h) { return axpy(y, h, f(axpy(y, h / 2, f(y, 0)), h / 2)); }
static V rk4(const V& y, ld h)
{
	V k1 = f(y, 0), k2 = f(axpy(y, h / 2, k1), h / 2), k3 = f(axpy(y, h / 2, k2), h / 2), k4 = f(axpy(y, h, k3), h);
	return axpy(axpy(axpy(axpy(y, h / 6, k1), h / 3, k2), h / 3, k3), h / 6, k4);
}
static V trapeze(const V& y, ld h, size_t m) { V f0 = f(y, 0), p = axpy(y, h, f0); for(size_t i = 0; i <= m; ++i) p = axpy(axpy(y, h / 2, f0), h / 2, f(p, h)); return p; }
struct Stetter
{
	V u, v; bool on = false;
	V step(const V& y, ld h, ld o = 0) { if(!on) { u = v = y; on = true; } V fu = f(u, o); V u1 = axpy(u, h, f(axpy(v, h / 2, fu), o + h / 2)); v = axpy(axpy(v, h / 2, fu), h / 2, f(u1, o + h)); u = u1; return half(u, v); }
};
static const std::vector<std::vector<ld>> AB = {{}, {1}, {1.5L, -0.5L}, {23 / 12.L, -16 / 12.L, 5 / 12.L}, {55 / 24.L, -59 / 24.L, 37 / 24.L, -9 / 24.L}, {1901 / 720.L, -2774 / 720.L, 2616 / 720.L, -1274 / 720.L, 251 / 720.L}};
struct Tab { size_t s; bool imp, emb; std::vector<std::vector<ld>> a; std::vector<ld> b1, b2, c; };
static Tab tab(const nbody_butcher_table* t)
{
	Tab r; r.s = t->get_steps(); r.imp = t->is_implicit(); r.emb = t->is_embedded();
	for(size_t i = 0; i != r.s; ++i)
	{
		size_t m = r.imp ? r.s : i; std::vector<ld> q; for(size_t j = 0; j != m; ++j) q.push_back(t->get_a()[i][j]);
		r.a.push_back(q); r.b1.push_back(t->get_b1()[i]); r.b2.push_back(t->get_b2()[i]); r.c.push_back(t->get_c()[i]);
	}
	return r;
}
struct RK
{
	Tab t; size_t refine = 1, maxrec = 0, sd = 8; ld thr = 1e-4L, mind = 0; std::vector<V> k; bool tie = false; int splits = 0;
	void stages(const V& y, ld h, ld o)
	{
		if(!t.imp) { k.assign(t.s, V()); for(size_t i = 0; i != t.s; ++i) { V s = y; for(size_t j = 0; j != i; ++j) s = axpy(s, h * t.a[i][j], k[j]); k[i] = f(s, o + t.c[i] * h); } return; }
		if(k.empty()) { V k0 = f(y, o); for(size_t i = 0; i != t.s; ++i) k.push_back(f(axpy(y, h * t.c[i], k0), o + t.c[i] * h)); }
		for(size_t q = 0; q != refine; ++q) for(size_t i = 0; i != t.s; ++i) { V s = y; for(size_t j = 0; j != t.s; ++j) s = axpy(s, h * t.a[i][j], k[j]); k[i] = f(s, o + t.c[i] * h); }
	}
	V sub(V y, ld h, size_t n, size_t level, ld o = 0)
	{
		for(size_t q = 0; q != n; ++q, o += h)
		{
			stages(y, h, o); ld err = 0;
			if(t.emb) { V e(y.size(), 0); for(size_t i = 0; i != t.s; ++i) e = axpy(e, t.b2[i] - t.b1[i], k[i]); err = nrm(e); if(fabsl(err - thr) < 1e-9L * thr + 1e-13L) tie = true; }
			if(t.emb && level < maxrec && h > mind && err > thr) { ++splits; y = sub(y, h / sd, sd, level + 1, o); }
			else for(size_t i = 0; i != t.s; ++i) y = axpy(y, h * t.b2[i], k[i]);
		}
		return y;
	}
};
static const char* RKS[] = {"rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc"};
// ------------------------------------------------------------------ groups
static void fixed(bool th)
{
	for(int rep = 0; rep < (th ? 40 : 4); ++rep) for(int kind : {0, 4})
	{
		struct { const char* n; V (*st)(const V&, ld); } one[] = {{"euler", euler}, {"midpoint", midpoint}, {"rk4", rk4}};
		for(auto& o : one)
		{
			CASE(o.n); Rig r(make(o.n), 1 + rndi(4), kind); V y = r.y(); ld t = 0;
			for(int k = 0; k < 4; ++k) { double h = rnd(0.001, 0.3); r.adv(h); y = o.st(y, h); t += h; expect(r, y, t, cat(o.n, " step ", k + 1)); }
		}
		for(size_t m = 0; m < 5; ++m)
		{
			CASE(cat("trapeze ", m)); QVariantMap p; p["refine_steps_count"] = qlonglong(m); Rig r(make("trapeze", p), 2, kind); V y = r.y(); ld t = 0;
			for(int k = 0; k < 3; ++k) { double h = rnd(0.001, 0.3); r.adv(h); y = trapeze(y, h, m); t += h; expect(r, y, t, cat("trapeze with ", m, " refinements, step ", k + 1)); }
		}
		{
			CASE("midpoint-st"); Rig r(make("midpoint-st"), 2, kind); V y = r.y(); ld t = 0; Stetter s;
			for(int k = 0; k < 12; ++k)
			{
				if(k == 5 || k == 6 || k == 9) { r.s->reset(); s = Stetter(); if(k == 9) { for(auto& x : y) x = (double)rnd(); r.set(y); } y = r.y(); }
				double h = rnd(0.001, 0.3); r.adv(h); y = s.step(y, h); t += h; expect(r, y, t, cat("smoothed midpoint step ", k + 1)); 
			}
		}
		for(int rank = 1; rank <= 5; ++rank) for(int corr = 0; corr < 2; ++corr)
		{
			CASE(cat("adams ", rank, " corr ", corr)); QVariantMap p; p["rank"] = rank; p["correction"] = bool(corr); p["starter_solver"] = "rk4"; Rig r(make("adams", p), 2, kind);
			ld t = 0; std::vector<V> hist; int k0 = 0; double h = rnd(0.001, 0.1);
			for(int k = 0; k < 3 * rank + 12; ++k, ++k0)
			{
				if(k == 2 * rank + 6) { r.s->reset(); hist.clear(); k0 = 0; V z = r.y(); for(auto& x : z) x = (double)rnd(); r.set(z); }
				V y = r.y(); r.adv(h); t += h; hist.insert(hist.begin(), f(y, 0));
				V g = r.y(); bool formula = false, start = same(g, rk4(y, h), 1e-13L); V w = y;
				if(int(hist.size()) >= rank) { for(int j = 0; j < rank; ++j) w = axpy(w, h * AB[rank][j], hist[j]); formula = same(g, w, 1e-13L); }
				CHECK(formula || (start && k0 <= rank), "Adams-Bashforth step", cat("rank ", rank, " corr ", corr, " step ", k + 1, ": ", diff(g, w)));
				CHECK(near(r.e.get_time(), r.t0 + t, 20, 1e-13L), "Adams-Bashforth time", cat(r.e.get_time()));
			}
		}
	}
}
static void tableau(bool th)
{
	for(int rep = 0; rep < (th ? 30 : 2); ++rep) for(const char* n : RKS) for(int corr = 0; corr < 2; ++corr) for(int ref = 0; ref < 4; ++ref)
	{
		bool imp = !strcmp(n, "rkgl") || !strcmp(n, "rklc"); if(!imp && ref) continue;
		CASE(cat(n, " corr ", corr, " refinements ", ref)); QVariantMap p; p["max_recursion"] = 0; p["correction"] = bool(corr); p["refine_steps_count"] = ref; p["error_threshold"] = 1e-9;
		Rig r(make(n, p), 1 + rndi(3), rep % 2 ? 4 : 0); auto* b = dynamic_cast<nbody_solver_rk_butcher*>(r.s.get()); if(!b) { FAIL("no solver", n); continue; }
		RK k; k.t = tab(b->table()); k.refine = ref; V y = r.y(); ld t = 0;
		for(int q = 0; q < 4; ++q) { double h = rnd(0.001, 0.1); r.adv(h); y = k.sub(y, h, 1, 0); t += h; expect(r, y, t, cat(n, corr ? " with compensation" : "", " step ", q + 1)); }
	}
}
// compensated accumulation: the state never differs from the exact sum of all increments by more than the last rounding
typedef __float128 q128;
typedef std::vector<q128> W;
static bool within_ulp(const V& x, const W& w, std::string& m, const V* mag = nullptr)
{
	for(size_t i = 0; i != x.size(); ++i)
	{
		double a = double(x[i]); double u = std::max(nextafter(fabs(a), INFINITY) - fabs(a), 1e-300); q128 d = q128(a) - w[i]; if(d < 0) d = -d;
		if(d > q128(u) * 0.75 + (mag ? (*mag)[i] * 1e-15L : 0)) { m = cat("element ", i, ": ", a, " is ", double((q128(a) - w[i]) / u), " units in the last place away from the exact sum"); return false; }
	}
	return true;
}
struct Carried
{
	Tab t; std::vector<std::pair<V, V>>* log; size_t at = 0, maxrec = 0, sd = 8; double thr = 1e-4, mind = 0; bool tie = false; std::string bad; W Y;
	void sub(double h, size_t n, size_t level)
	{
		for(size_t q = 0; q != n; ++q)
		{
			std::vector<V> k;
			for(size_t i = 0; i != t.s; ++i)
			{
				if(at >= log->size()) { bad = "too few derivatives"; return; }
				W s = Y; V mag(Y.size(), 0); for(size_t j = 0; j != i; ++j) for(size_t e = 0; e != s.size(); ++e) { s[e] += q128(double(h * double(t.a[i][j]))) * k[j][e]; mag[e] += fabsl(h * t.a[i][j] * k[j][e]); }
				std::string m; if(!within_ulp((*log)[at].first, s, m, &mag)) { bad = cat("stage ", i, " at level ", level, ", ", m); return; }
				k.push_back((*log)[at++].second);
			}
			ld err = 0; for(size_t e = 0; e != Y.size(); ++e) { ld v = 0; for(size_t i = 0; i != t.s; ++i) v += (t.b2[i] - t.b1[i]) * k[i][e]; err = std::max(err, fabsl(v)); }
			if(fabsl(err - thr) < 1e-9L * fabs(thr)) { tie = true; return; }
			if(t.emb && level < maxrec && h > mind && err > thr) { sub(h / sd, sd, level + 1); if(tie || !bad.empty()) return; }
			else for(size_t i = 0; i != t.s; ++i) for(size_t e = 0; e != Y.size(); ++e) Y[e] += q128(double(double(t.b2[i]) * h)) * k[i][e];
		}
	}
};
static void carried(bool th)
{
	for(int rep = 0; rep < (th ? 40 : 4); ++rep) for(const char* n : RKS)
	{
		if(!strcmp(n, "rkgl") || !strcmp(n, "rklc")) continue;
		Carried c; c.maxrec = rep % 2 ? 1 + rep % 4 / 2 : 0; c.sd = 2 + rndi(2); c.thr = -1;
		CASE(cat(n, " compensated, levels ", c.maxrec, " sub steps ", c.sd, " threshold ", c.thr)); QVariantMap p; p["max_recursion"] = qlonglong(c.maxrec); p["substep_subdivisions"] = qlonglong(c.sd); p["error_threshold"] = c.thr; p["correction"] = true;
		Rig r(make(n, p), 2, 0); c.t = tab(dynamic_cast<nbody_solver_rk_butcher*>(r.s.get())->table()); r.e.scale = 1 << 20; r.e.log = true; c.log = &r.e.calls;
		V y = r.y(); for(ld& x : y) x = double(r.e.scale * rnd(1, 2)); r.set(y); c.Y.assign(y.begin(), y.end());
		for(int q = 0; q < 40 && !c.tie; ++q)
		{
			double h = std::pow(10., rnd(-6, -4)); if(c.maxrec) h *= 8; r.e.calls.clear(); c.at = 0; r.adv(h); c.sub(h, 1, 0); if(c.tie) break;
			std::string m = c.bad; bool ok = m.empty() && within_ulp(r.y(), c.Y, m);
			if(!CHECK(ok, "compensated Runge-Kutta step carries its rounding error", cat("step ", q + 1, ": ", m))) break;
		}
	}
}
static void carried_adams(bool th)
{
	for(int rep = 0; rep < (th ? 40 : 4); ++rep) for(int rank = 1; rank <= 5; ++rank)
	{
		CASE(cat("adams ", rank, " compensated")); QVariantMap p; p["rank"] = rank; p["correction"] = true; p["starter_solver"] = "rk4"; Rig r(make("adams", p), 2, 0);
		r.e.scale = 1 << 20; V y = r.y(); for(ld& x : y) x = double(r.e.scale * rnd(1, 2)); r.set(y); W Y; double h = std::pow(10., rnd(-5, -3)); std::vector<V> hist;
		for(int q = 0; q < 60; ++q)
		{
			V y0 = r.y(); T0 = r.e.get_time(); { auto* b = r.e.create_buffer(8 * r.e.problem_size()); r.e.fcompute(r.e.get_time(), r.e.get_y(), b); std::vector<double> z(y0.size()); r.e.read_buffer(z.data(), b); r.e.free_buffer(b); hist.insert(hist.begin(), V(z.begin(), z.end())); }
			r.adv(h); if(q <= rank) { V z = r.y(); Y.assign(z.begin(), z.end()); continue; }
			for(int j = 0; j < rank; ++j) for(size_t e = 0; e != Y.size(); ++e) Y[e] += q128(double(AB[rank][j])) * q128(h) * hist[j][e];
			std::string m; if(!CHECK(within_ulp(r.y(), Y, m), "compensated Adams-Bashforth step carries its rounding error", cat("step ", q + 1, ": ", m))) break;
		}
	}
}
static void orders()
{
	struct { const char* n; int p2, p1; } ord[] = {{"rkck", 4, 5}, {"rkdp", 4, 5}, {"rkdverk", 5, 6}, {"rkf", 7, 7}, {"rkfeagin10", 10, 8}, {"rkfeagin12", 12, 10}, {"rkfeagin14", 14, 12}, {"rkgl", 2, 6}, {"rklc", 2, 4}};
	for(auto& o : ord)
	{
		CASE(o.n); Rig r(make(o.n)); Tab t = tab(dynamic_cast<nbody_solver_rk_butcher*>(r.s.get())->table());
		for(int which = 1; which <= 2; ++which)
		{
			auto& b = which == 1 ? t.b1 : t.b2; int p = which == 1 ? o.p1 : o.p2;
			// quadrature trees b.c^(q-1) = 1/q and the tall trees b.A^(q-1).1 = 1/q!
			V c(t.s, 1), z(t.s, 1); ld fac = 1;
			for(int q = 1; q <= p; ++q)
			{
				ld s1 = 0, s2 = 0; fac *= q; for(size_t i = 0; i != t.s; ++i) { s1 += b[i] * c[i]; s2 += b[i] * z[i]; }
				CHECK(fabsl(s1 - 1.L / q) < 2e-13L, "quadrature condition", cat(o.n, " b", which, " order ", q, " residual ", double(s1 - 1.L / q)));
				CHECK(fabsl(s2 - 1.L / fac) < 2e-13L, "tall tree condition", cat(o.n, " b", which, " order ", q, " residual ", double(s2 - 1.L / fac)));
				V w(t.s, 0); for(size_t i = 0; i != t.s; ++i) { c[i] *= t.c[i]; for(size_t j = 0; j != t.a[i].size(); ++j) w[i] += t.a[i][j] * z[j]; } z = w;
			}
		}
		SAMPLE(o.n);
	}
}
static void adaptive(bool th)
{
	for(int rep = 0; rep < (th ? 60 : 6); ++rep) for(const char* n : RKS) for(int corr = 0; corr < 2; ++corr)
	{
		RK k; k.maxrec = rndi(4); k.sd = 1 + rndi(4); k.thr = std::pow(10., rnd(-7, -1)); k.mind = rep % 3 == 0 ? rnd(0.01, 0.2) : 0;
		CASE(cat(n, " corr ", corr, " levels ", k.maxrec, " sub steps ", k.sd, " threshold ", double(k.thr), " min step ", double(k.mind)));
		QVariantMap p; p["max_recursion"] = qlonglong(k.maxrec); p["substep_subdivisions"] = qlonglong(k.sd); p["error_threshold"] = double(k.thr); p["correction"] = bool(corr);
		Rig r(make(n, p), 2, rep % 2 ? 4 : 0); r.s->set_time_step(double(k.mind), 1); k.t = tab(dynamic_cast<nbody_solver_rk_butcher*>(r.s.get())->table());
		V y = r.y(); ld t = 0; size_t st = r.e.get_step();
		for(int q = 0; q < 3 && !k.tie; ++q)
		{
			double h = rnd(0.02, 0.4); if(k.mind > 0 && q != 1) h = double(k.mind) * (q == 2 && (k.sd == 2 || k.sd == 4) ? k.sd : 1);
			r.adv(h); V w = k.sub(y, h, 1, 0); t += h; y = w;
			if(!k.tie) { expect(r, y, t, cat(n, " adaptive step")); CHECK(r.e.get_step() == st + q + 1, "one step counted", cat(r.e.get_step())); }
		}
	}
}
// extrapolated value by Lagrange weights at h = 0 in h^2
static V lagr(const std::vector<V>& T, const std::vector<size_t>& n, size_t a, size_t b, int order)
{
	V r(T[0].size(), 0);
	for(size_t i = a; i <= b; ++i) { ld w = 1; for(size_t j = a; j <= b; ++j) if(j != i) { ld x = powl(n[i], order), z = powl(n[j], order); w *= x / (x - z); } r = axpy(r, w, T[i]); }
	return r;
}
static void bulirsch(bool th)
{
	for(int rep = 0; rep < (th ? 60 : 8); ++rep) for(size_t ml = 1; ml <= 8; ++ml)
	{
		double thr = std::pow(10., rnd(-14, -1)); if(rep % 4 == 0) thr = 1e-30;
		CASE(cat("bs levels ", ml, " threshold ", thr)); QVariantMap p; p["max_level"] = qlonglong(ml); p["error_threshold"] = thr; Rig r(make("bs", p), 2, rep % 2 ? 4 : 0);
		std::vector<size_t> n; for(size_t j = 0; j != ml; ++j) n.push_back(j == 0 ? 2 : j == 1 ? 4 : j == 2 ? 6 : 2 * n[j - 2]);
		V y = r.y(); ld t = 0; bool tie = false;
		for(int q = 0; q < 3 && !tie; ++q)
		{
			double h = rnd(0.02, 0.5); r.adv(h); t += h; std::vector<V> T; V w;
			for(size_t l = 0; l != ml; ++l)
			{
				Stetter s; V z = y; for(size_t k = 0; k != n[l]; ++k) z = s.step(z, ld(h) / n[l], k * ld(h) / n[l]); T.push_back(z); w = z;
				if(l < 2) continue;
				V a = lagr(T, n, 0, l, 2), b = lagr(T, n, 1, l, 2); ld e = nrm(axpy(a, -1, b)); if(fabsl(e - thr) < 1e-6L * thr + 1e-12L && thr > 1e-20) tie = true;
				if(e < thr || l == ml - 1) { w = a; break; }
			}
			y = w; if(!tie) { V g = r.y(); CHECK(same(g, w, 1e-10L), "extrapolated state", diff(g, w)); CHECK(near(r.e.get_time(), r.t0 + t, 20, 1e-14L), "extrapolated step time", cat(r.e.get_time())); SAMPLE(g_case); } y = r.y();
		}
	}
	for(int rep = 0; rep < (th ? 100 : 20); ++rep) for(const char* ty : {"neville", "berrut"}) for(int order = 1; order <= 3; ++order)
	{
		CASE(cat(ty, " order ", order)); Rig r(make("euler"), 2); std::vector<size_t> n; size_t x = 1; size_t L = 1 + rndi(7); for(size_t i = 0; i != L; ++i) { x += 1 + rndi(4); n.push_back(x); }
		std::unique_ptr<nbody_extrapolator> e(nbody_create_extrapolator(ty, &r.e, order, n)); if(!e) { FAIL("no extrapolator", ty); continue; }
		for(int pass = 0; pass < 2; ++pass)
		{
			std::vector<V> T; auto* out = r.e.create_buffer(8 * r.e.problem_size());
			for(size_t l = 0; l != L; ++l)
			{
				V z = r.y(); for(auto& q : z) q = double(rnd()); T.push_back(z); std::vector<double> b(z.begin(), z.end()); auto* zb = r.e.create_buffer(8 * b.size()); r.e.write_buffer(zb, b.data());
				e->update_table(l, zb);
				e->extrapolate(l, out); r.e.read_buffer(b.data(), out); V g(b.begin(), b.end()); double er = e->estimate_error(l);
				if(!strcmp(ty, "neville"))
				{
					V w = lagr(T, n, 0, l, order); ld sc = std::max<ld>(1, nrm(w)); CHECK(same(g, w, 1e-7L * sc), "neville value", diff(g, w));
					if(l) { V w1 = lagr(T, n, 1, l, order); ld er2 = nrm(axpy(w, -1, w1)); CHECK(near(er, er2, std::max<ld>(1, nrm(w1)), 1e-7L), "neville error estimate", cat(er, " want ", double(er2))); }
				}
				else
				{
					auto ber = [&](size_t m) { V w(z.size(), 0); ld s = 0; for(size_t i = 0; i < m; ++i) s += (i % 2 ? 1 : -1) * powl(n[i], order); for(size_t i = 0; i < m; ++i) w = axpy(w, (i % 2 ? 1 : -1) * powl(n[i], order) / s, T[i]); return w; };
					V w = ber(l); CHECK(same(g, w, 1e-9L), "berrut value", diff(g, w));
					if(l) { ld e2 = nrm(axpy(ber(l), -1, ber(l - 1))); CHECK(near(er, e2, 1 + e2, 1e-9L), "berrut error estimate", cat(er, " want ", double(e2))); }
				}
				if(l == 0) CHECK(er > 1e300, "no estimate at the first level", cat(er));
				r.e.free_buffer(zb);
			}
			r.e.free_buffer(out);
		}
	}
}
// after reset a solver behaves as a new one, from any state and history
static void restart(bool th)
{
	std::vector<std::pair<std::string, QVariantMap>> cfg;
	for(const char* n : {"euler", "midpoint", "rk4", "trapeze", "midpoint-st", "bs"}) cfg.push_back({n, QVariantMap()});
	for(const char* n : RKS) for(int c = 0; c < 2; ++c) { QVariantMap p; p["correction"] = bool(c); cfg.push_back({n, p}); }
	for(const char* st : {"euler", "rk4", "midpoint-st", "rkdp", "rklc", "rkgl"}) for(int rank = 1; rank <= 5; ++rank) for(int c = 0; c < 2; ++c) { QVariantMap p; p["starter_solver"] = st; p["rank"] = rank; p["correction"] = bool(c); cfg.push_back({"adams", p}); }
	for(int rep = 0; rep < (th ? 20 : 2); ++rep) for(auto& c : cfg)
	{
		CASE(cat(c.first, " rank ", c.second.value("rank").toInt(), " starter ", c.second.value("starter_solver").toString().toStdString(), " correction ", c.second.value("correction").toInt()));
		nbody_solver* s1 = make(c.first.c_str(), c.second); if(!s1) continue;
		Rig a(s1, 2), b(make(c.first.c_str(), c.second), 2); b.set(a.y());
		int hist = rndi(9); for(int k = 0; k < hist; ++k) a.adv(rnd(0.01, 0.1));
		V y = a.y(); for(auto& x : y) x = double(rnd()); a.set(y); b.set(y); b.e.set_time(a.e.get_time()); a.s->reset();
		for(int k = 0; k < 9; ++k) { double h = 0.05; a.adv(h); b.adv(h); V p = a.y(), q = b.y(); if(!CHECK(same(p, q, 0), "restart of " + c.first, cat("after ", hist, " steps of history, step ", k + 1, ": ", diff(p, q)))) break; }
		SAMPLE(g_case);
	}
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv);
	if(A.group == "c05" || A.group == "all") { fixed(A.thorough); carried_adams(A.thorough); }
	if(A.group == "c06" || A.group == "all") { tableau(A.thorough); carried(A.thorough); if(A.group == "c06") adaptive(A.thorough); }
	if(A.group == "c07" || A.group == "all") orders();
	if(A.group == "c08" || A.group == "all") adaptive(A.thorough);
	if(A.group == "c09" || A.group == "all") bulirsch(A.thorough);
	if(A.group == "c20" || A.group == "all") restart(A.thorough);
	return DONE();
}
