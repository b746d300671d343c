#include "nbody_engine_simple.h"
#include "nbody_engine_openmp.h"
#include "nbody_engine_block.h"
#include "nbody_engine_ah.h"
#include "nbody_engine_simple_bh.h"
#include "nbody_data.h"
#include "summation.h"
#include "common.h"
#include <memory>
typedef std::vector<double> V;
static void kahan(double& a, double b, double& c)
{
	volatile double y = b - c; volatile double t = a + y; volatile double z = t - a; c = z - y; a = t;
}
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static void run(nbody_engine* e, size_t n, size_t cnt, int kind, int calls)
{
	size_t p = 6 * n; CASE(cat(e->type_name(), " n=", n, " terms=", cnt, " kind=", kind));
	auto val = [&]() { double x = rnd(); if(kind == 1) x *= std::pow(10., rnd(-17, 17)); if(kind == 2) x = std::fabs(x) * 1e-16; if(kind >= 3 && rndi(3) == 0) x = 0; return x; };
	V a(p), r(p, 0), x(p, 3.5); for(auto& q : a) q = kind == 2 ? 1 + rnd(0, 1) : val(); if(kind == 3) for(auto& q : r) q = rnd() * 1e-10;
	auto* A = e->create_buffer(8 * p); auto* R = e->create_buffer(8 * p); auto* X = e->create_buffer(8 * p);
	e->write_buffer(A, a.data()); e->write_buffer(R, r.data()); e->write_buffer(X, x.data());
	auto vec = e->create_buffers(8 * p, cnt + 1);
	for(int call = 0; call < calls; ++call)
	{
		std::vector<V> B; V c;
		for(size_t k = 0; k <= cnt; ++k) { V b(p); for(auto& q : b) q = val(); e->write_buffer(vec[k], b.data()); B.push_back(b); c.push_back(rndi(5) == 0 ? 0 : (kind == 4 ? 1.0 : rnd())); }
		e->fmaddn_corr(A, R, vec, c.data(), cnt);
		for(size_t k = 0; k < cnt; ++k) if(c[k] != 0) for(size_t i = 0; i < p; ++i) { volatile double t = B[k][i] * c[k]; kahan(a[i], t, r[i]); }
		V ga(p), gr(p), gx(p); e->read_buffer(ga.data(), A); e->read_buffer(gr.data(), R); e->read_buffer(gx.data(), X);
		for(size_t i = 0; i < p; ++i)
		{
			CHECK(same(ga[i], a[i]), "compensated sum", cat(e->type_name(), " call ", call, " element ", i, " got ", ga[i], " want ", a[i]));
			CHECK(same(gr[i], r[i]), "carried error", cat(e->type_name(), " call ", call, " element ", i, " got ", gr[i], " want ", r[i]));
			CHECK(gx[i] == 3.5, "other buffer", cat(e->type_name(), " element ", i));
		}
		for(size_t k = 0; k < vec.size(); ++k) { V t(p); e->read_buffer(t.data(), vec[k]); CHECK(!memcmp(t.data(), B[k].data(), 8 * p), "term buffer", cat(e->type_name(), " term ", k)); }
	}
	e->free_buffer(A); e->free_buffer(R); e->free_buffer(X); e->free_buffers(vec); SAMPLE(g_case);
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv);
	for(int rep = 0; rep < (A.thorough ? 20 : 1); ++rep)
	{
		for(size_t n : {size_t(1), size_t(2), size_t(5), size_t(64), size_t(150)})
		{
			std::vector<std::unique_ptr<nbody_engine>> es; es.emplace_back(new nbody_engine_simple); es.emplace_back(new nbody_engine_openmp); es.emplace_back(new nbody_engine_block); es.emplace_back(new nbody_engine_ah(10, 0.5, 0.5)); es.emplace_back(new nbody_engine_simple_bh_tree(10)); es.emplace_back(new nbody_engine_simple_bh_heap(10)); es.emplace_back(new nbody_engine_simple_bh_heap_stackless(10));
			for(auto& e : es) { nbody_data d; fill_data(d, n, 0); e->init(&d); for(size_t cnt : {size_t(0), size_t(1), size_t(2), size_t(4), size_t(17), size_t(40)}) for(int k = 0; k < 5; ++k) run(e.get(), n, cnt, k, 3); }
		}
		CASE("one step");
		for(int i = 0; i < 20000; ++i)
		{
			double a = rnd() * std::pow(10., rnd(-20, 20)), b = rnd() * std::pow(10., rnd(-20, 20)), c = rnd() * std::pow(10., rnd(-30, 0)); if(i % 3 == 0) c = 0;
			double c1 = c, a1 = a; double g = summation_k(a, b, c1); double c2 = c; kahan(a1, b, c2);
			CHECK(g == a1 && c1 == c2, "one step", cat("a=", a, " b=", b, " c=", c));
		}
	}
	return DONE();
}
