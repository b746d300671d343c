#include "nbody_engine_simple.h"
#include "nbody_engine_openmp.h"
#include "nbody_engine_block.h"
#include "nbody_engine_ah.h"
#include "nbody_engine_simple_bh.h"
#include "nbody_data.h"
#include "common.h"
#include <memory>
typedef std::vector<double> V;
typedef nbody_engine::memory M;
struct Fake : public M { size_t size() const { return 0; } };
static std::vector<std::unique_ptr<nbody_engine>> engines()
{
	std::vector<std::unique_ptr<nbody_engine>> r;
	r.emplace_back(new nbody_engine_simple); r.emplace_back(new nbody_engine_openmp); r.emplace_back(new nbody_engine_block);
	r.emplace_back(new nbody_engine_ah(10, 0.5, 0.5));
	r.emplace_back(new nbody_engine_simple_bh_tree(10, ett_cycle, etl_tree));
	r.emplace_back(new nbody_engine_simple_bh_heap(10, ett_nested_tree, etl_heap));
	r.emplace_back(new nbody_engine_simple_bh_heap_stackless(10, ett_cycle, etl_heap_stackless));
	return r;
}
struct Env
{
	nbody_engine* e; size_t n; const char* nm;
	std::vector<M*> bufs; std::vector<V> ref;
	size_t mk(size_t cnt = 0)
	{
		if(!cnt) cnt = 6 * n;
		V v(cnt); for(auto& x : v) x = rnd() * std::pow(10., rnd(-3, 3)); if(rndi(4) == 0) v[rndi(cnt)] = 0;
		M* m = e->create_buffer(cnt * sizeof(double)); e->write_buffer(m, v.data()); bufs.push_back(m); ref.push_back(v); return bufs.size() - 1;
	}
	void check(const std::string& what, int changed, ld tol = 4e-16L, const V* scale = nullptr)
	{
		for(size_t b = 0; b < bufs.size(); ++b)
		{
			V v(ref[b].size(), -1); e->read_buffer(v.data(), bufs[b]);
			for(size_t i = 0; i < v.size(); ++i)
			{
				bool ok = int(b) == changed ? near(v[i], ref[b][i], scale ? (*scale)[i] : fabsl(ref[b][i]), tol) : v[i] == ref[b][i];
				if(!CHECK(ok, int(b) == changed ? what : what + " frame", cat(nm, " n=", n, " buffer ", b, " element ", i, " got ", v[i], " want ", ref[b][i]))) break;
			}
			if(int(b) == changed) ref[b] = v;
		}
	}
	~Env() { for(auto b : bufs) e->free_buffer(b); }
};
static void invalid(nbody_engine* e, size_t n)
{
	Env E{e, n, e->type_name(), {}, {}}; size_t a = E.mk(), b = E.mk();
	Fake fk; M* bad[2] = {nullptr, &fk};
	for(M* f : bad)
	{
		e->copy_buffer(f, E.bufs[b]); e->copy_buffer(E.bufs[a], f); E.check("copy_buffer invalid", -1);
		e->fill_buffer(f, 3); E.check("fill_buffer invalid", -1);
		e->fmadd_inplace(f, E.bufs[b], 2); e->fmadd_inplace(E.bufs[a], f, 2); E.check("fmadd_inplace invalid", -1);
		e->fmadd(f, E.bufs[a], E.bufs[b], 2); e->fmadd(E.bufs[a], E.bufs[b], f, 2); e->fmadd(E.bufs[a], f, E.bufs[b], 2); E.check("fmadd invalid", -1);
		nbody_engine::memory_array v{f}; double d[2] = {1, 2};
		e->fmaddn_inplace(E.bufs[a], v, d, 1); e->fmaddn_inplace(f, nbody_engine::memory_array{E.bufs[b]}, d, 1); E.check("fmaddn_inplace invalid", -1);
		e->fmaddn(E.bufs[a], E.bufs[b], v, d, 1); e->fmaddn(f, E.bufs[b], nbody_engine::memory_array{E.bufs[b]}, d, 1); E.check("fmaddn invalid", -1);
		e->fmaddn_corr(f, E.bufs[b], nbody_engine::memory_array{E.bufs[b]}, d, 1); E.check("fmaddn_corr invalid", -1);
		double r = 17; e->fmaxabs(f, r); CHECK(r == 17, "fmaxabs invalid", e->type_name());
		e->clamp(f, 1); e->fcompute(0, f, E.bufs[b]); e->fcompute(0, E.bufs[b], f); e->write_buffer(f, E.ref[a].data()); e->read_buffer(E.ref[a].data(), f); E.check("other invalid", -1);
	}
	nbody_engine::memory_array v{E.bufs[b]}; double d[2] = {1, 2};
	e->fmaddn_inplace(E.bufs[a], v, d, 2); e->fmaddn(E.bufs[a], E.bufs[b], v, d, 2); e->fmaddn(E.bufs[a], nullptr, v, d, 2); e->fmaddn_corr(E.bufs[a], E.bufs[b], v, d, 2); E.check("too many coefficients", -1);
	e->fmaddn_inplace(E.bufs[a], v, nullptr, 1); e->fmaddn(E.bufs[a], E.bufs[b], v, nullptr, 1); e->fmaddn(E.bufs[a], nullptr, v, nullptr, 1); e->fmaddn_corr(E.bufs[a], E.bufs[b], v, nullptr, 1); E.check("null coefficients", -1);
}
static void ops(nbody_engine* e, size_t n)
{
	const char* nm = e->type_name(); size_t p = 6 * n;
	Env E{e, n, nm, {}, {}}; size_t a = E.mk(), b = E.mk(), c = E.mk(); E.mk();
	e->copy_buffer(E.bufs[a], E.bufs[b]); E.ref[a] = E.ref[b]; E.check("copy", a, 0);
	for(size_t cnt : {size_t(1), p - 1, p, 2 * p + 3}) { size_t k = E.mk(cnt); double v = rnd(); e->fill_buffer(E.bufs[k], v); E.ref[k].assign(cnt, v); E.check("fill", k, 0); }
	for(double q : {rnd(), 0.0, -1.0, 1e9})
	{
		V sc(p);
		e->fmadd_inplace(E.bufs[a], E.bufs[b], q); for(size_t i = 0; i < p; ++i) { ld x = E.ref[a][i], y = ld(E.ref[b][i]) * q; sc[i] = fabsl(x) + fabsl(y); E.ref[a][i] = x + y; } E.check("fmadd_inplace", a, 4e-16L, &sc);
		e->fmadd_inplace(E.bufs[a], E.bufs[a], q); for(size_t i = 0; i < p; ++i) { ld x = E.ref[a][i], y = ld(E.ref[a][i]) * q; sc[i] = fabsl(x) + fabsl(y); E.ref[a][i] = x + y; } E.check("fmadd_inplace self", a, 4e-16L, &sc);
		e->fmadd(E.bufs[a], E.bufs[b], E.bufs[c], q); for(size_t i = 0; i < p; ++i) { ld x = E.ref[b][i], y = ld(E.ref[c][i]) * q; sc[i] = fabsl(x) + fabsl(y); E.ref[a][i] = x + y; } E.check("fmadd", a, 4e-16L, &sc);
		e->fmadd(E.bufs[a], E.bufs[b], E.bufs[a], q); for(size_t i = 0; i < p; ++i) { ld x = E.ref[b][i], y = ld(E.ref[a][i]) * q; sc[i] = fabsl(x) + fabsl(y); E.ref[a][i] = x + y; } E.check("fmadd a=b+a*c", a, 4e-16L, &sc);
	}
	for(size_t cnt : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(5), size_t(9), size_t(24), size_t(40)})
		for(int z = 0; z < 3; ++z)
		{
			Env F{e, n, nm, {}, {}}; size_t x = F.mk(), y = F.mk(); nbody_engine::memory_array v; std::vector<size_t> id; V d;
			for(size_t k = 0; k < cnt; ++k) { id.push_back(F.mk()); v.push_back(F.bufs[id.back()]); d.push_back(z == 2 || (z == 1 && rndi(2)) ? 0 : rnd()); }
			d.push_back(1); bool nz = false; for(size_t k = 0; k < cnt; ++k) nz |= d[k] != 0;
			V lin(p, 0), sc(p, 0); for(size_t i = 0; i < p; ++i) { ld s = 0, w = 0; for(size_t k = 0; k < cnt; ++k) { ld t = ld(F.ref[id[k]][i]) * d[k]; s += t; w += fabsl(t); } lin[i] = s; sc[i] = w + fabs(F.ref[x][i]) + fabs(F.ref[y][i]); }
			V x0 = F.ref[x];
			e->fmaddn_inplace(F.bufs[x], v, d.data(), cnt); for(size_t i = 0; i < p; ++i) F.ref[x][i] += lin[i]; F.check("fmaddn_inplace", x, 1e-14L, &sc);
			e->write_buffer(F.bufs[x], x0.data()); F.ref[x] = x0;
			e->fmaddn(F.bufs[x], F.bufs[y], v, d.data(), cnt); for(size_t i = 0; i < p; ++i) F.ref[x][i] = F.ref[y][i] + lin[i];
			F.check(nz ? "linear combination" : "linear combination with all coefficients zero", x, 1e-14L, &sc);
			e->fmaddn(F.bufs[x], nullptr, v, d.data(), cnt); for(size_t i = 0; i < p; ++i) F.ref[x][i] = lin[i]; F.check("linear combination without base", x, 1e-14L, &sc);
			e->fmaddn(F.bufs[y], F.bufs[y], v, d.data(), cnt); for(size_t i = 0; i < p; ++i) F.ref[y][i] += lin[i]; F.check("linear combination in place", y, 1e-14L, &sc);
			V r(p, 0); size_t cb = F.mk(); e->fill_buffer(F.bufs[cb], 0); F.ref[cb].assign(p, 0);
			e->fmaddn_corr(F.bufs[x], F.bufs[cb], v, d.data(), cnt); for(size_t i = 0; i < p; ++i) F.ref[x][i] += lin[i];
			{ V t(p); e->read_buffer(t.data(), F.bufs[cb]); F.ref[cb] = t; } F.check("compensated linear combination", x, 1e-14L, &sc);
		}
	for(int rep = 0; rep < 3; ++rep)
	{
		size_t k = E.mk(); ld m = 0; if(rep == 1) { E.ref[k].assign(p, 0); E.ref[k][rndi(p)] = -rnd(0, 2); } if(rep == 2) { E.ref[k].assign(p, -1e-3); E.ref[k][p - 1] = -5; } e->write_buffer(E.bufs[k], E.ref[k].data());
		for(double x : E.ref[k]) m = std::max(m, fabsl(ld(x)));
		double r = rnd(); e->fmaxabs(E.bufs[k], r); CHECK(r == double(m), "max norm", cat(nm, " n=", n, " got ", r, " want ", m)); E.check("max norm", -1);
	}
	for(double box : {0.0, 0.5, 1.0, 100.0})
	{
		size_t k = E.mk(); for(size_t i = 0; i < p; ++i) E.ref[k][i] = box * rnd(-3, 3) * (rndi(5) == 0 ? 2 : 1); e->write_buffer(E.bufs[k], E.ref[k].data());
		V o = E.ref[k], sc(p, box); e->clamp(E.bufs[k], box);
		for(size_t i = 0; i < p / 2; ++i) { ld y = o[i]; if(y > box) y -= 2 * ld(box); if(y < -ld(box)) y += 2 * ld(box); E.ref[k][i] = y; }
		V t(p); e->read_buffer(t.data(), E.bufs[k]); for(size_t i = p / 2; i < p; ++i) CHECK(t[i] == o[i], "clamp velocities", cat(nm, " element ", i));
		E.check("clamp", k, 4e-16L, &sc);
	}
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv);
	for(int rep = 0; rep < (A.thorough ? 10 : 1); ++rep)
		for(size_t n : {size_t(1), size_t(2), size_t(7), size_t(64), size_t(129)})
			for(auto& e : engines())
			{
				nbody_data d; fill_data(d, n, 0); e->init(&d);
				CASE(cat(e->type_name(), " invalid arguments n=", n)); invalid(e.get(), n);
				CASE(cat(e->type_name(), " operations n=", n)); ops(e.get(), n); SAMPLE(g_case);
			}
	return DONE();
}
