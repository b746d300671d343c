#include "nbody_engine_simple.h"
#include "nbody_engine_openmp.h"
#include "nbody_engine_block.h"
#include "nbody_engine_ah.h"
#include "nbody_data.h"
#include "common.h"
static const ld EPS = 1e-8;
struct Ref { std::vector<ld> a, s; };
static void pair(const double* y, size_t n, size_t i, size_t j, ld* dr, ld& r2, ld& raw)
{
	raw = 0; for(int c = 0; c < 3; ++c) { dr[c] = ld(y[c * n + i]) - ld(y[c * n + j]); raw += dr[c] * dr[c]; }
	r2 = raw < EPS ? EPS : raw;
}
static Ref reference(const double* y, const double* m, size_t n)
{
	Ref r; r.a.assign(3 * n, 0); r.s.assign(3 * n, 0);
	for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(i != j)
	{
		ld dr[3], r2, raw; pair(y, n, i, j, dr, r2, raw);
		for(int c = 0; c < 3; ++c) { ld t = -dr[c] * m[j] / (r2 * sqrtl(r2)); r.a[c * n + i] += t; r.s[c * n + i] += fabsl(t) + fabsl(ld(y[c*n+i]))*m[j]/(r2*sqrtl(r2)); }
	}
	return r;
}
static void one(nbody_engine* e, const char* name, size_t n, int kind)
{
	CASE(cat(name, " n=", n, " kind=", kind));
	nbody_data d; fill_data(d, n, kind);
	e->init(&d);
	std::vector<double> y(6 * n), f(6 * n), y2(6 * n), g(6 * n, 7.25);
	for(auto& x : y) x = rnd();
	if(kind == 2) for(size_t i = 1; i < n; i += 3) for(int c = 0; c < 3; ++c) y[c * n + i] = y[c * n + i - 1];
	if(kind == 3) for(size_t i = 1; i < n; i += 4) for(int c = 0; c < 3; ++c) y[c * n + i] = y[c * n + i - 1] + 2e-5 * (c + 1);
	auto* Y = e->create_buffer(48 * n); auto* F = e->create_buffer(48 * n); auto* G = e->create_buffer(48 * n);
	e->write_buffer(Y, y.data()); e->write_buffer(G, g.data());
	size_t cc = e->get_compute_count();
	e->fcompute(0.5, Y, F);
	e->read_buffer(f.data(), F); e->read_buffer(y2.data(), Y);
	CHECK(e->get_compute_count() == cc + 1, "compute count", cat(name));
	CHECK(!memcmp(y.data(), y2.data(), 48 * n), "y modified", name);
	e->read_buffer(y2.data(), G); CHECK(!memcmp(g.data(), y2.data(), 48 * n), "other buffer modified", name);
	Ref r = reference(y.data(), d.get_mass(), n);
	for(size_t i = 0; i < n; ++i) for(int c = 0; c < 3; ++c)
	{
		CHECK(f[c * n + i] == y[(c + 3) * n + i], "position derivative", cat(name, " body ", i, " got ", f[c * n + i]));
		CHECK(near(f[(c + 3) * n + i], r.a[c * n + i], r.s[c * n + i] , 1e-12L), "acceleration", cat(name, " body ", i, " comp ", c, " got ", f[(c + 3) * n + i], " want ", r.a[c * n + i]));
	}
	SAMPLE(g_case);
	e->free_buffer(Y); e->free_buffer(F); e->free_buffer(G);
}
static void ah(size_t n, size_t rate, double md, double mf)
{
	CASE(cat("ah run n=", n, " rate=", rate, " max_dist=", md, " min_force=", mf));
	nbody_data d; fill_data(d, n, 0);
	nbody_engine_ah e(rate, md, mf); e.init(&d);
	auto* Y = e.create_buffer(48 * n); auto* F = e.create_buffer(48 * n);
	std::vector<double> y(6 * n), f(6 * n); for(auto& x : y) x = rnd();
	const double* m = d.get_mass();
	std::vector<ld> far(3 * n); std::vector<std::vector<size_t>> nb(n);
	size_t start = rndi(2) ? 0 : 1 + rndi(3 * rate); e.set_step(start);
	for(size_t step = start; step < start + 2 * rate + 2; ++step)
	{
		if(step % rate == 0 || step == start)
			for(size_t i = 0; i < n; ++i)
			{
				nb[i].clear(); for(int c = 0; c < 3; ++c) far[c * n + i] = 0;
				for(size_t j = 0; j < n; ++j) if(i != j)
				{
					ld dr[3], r2, raw; pair(y.data(), n, i, j, dr, r2, raw);
					ld ff = 0, F3[3]; for(int c = 0; c < 3; ++c) { F3[c] = -dr[c] * m[i] * m[j] / (r2 * sqrtl(r2)); ff += F3[c] * F3[c]; }
					if(raw < ld(md) * md || ff > ld(mf) * mf) nb[i].push_back(j); else for(int c = 0; c < 3; ++c) far[c * n + i] += F3[c];
				}
			}
		e.write_buffer(Y, y.data()); e.fcompute(0, Y, F); e.read_buffer(f.data(), F);
		for(size_t i = 0; i < n; ++i)
		{
			ld a[3], s = 1; for(int c = 0; c < 3; ++c) { a[c] = far[c * n + i]; s += fabsl(a[c]); }
			if(step % rate == 0) { Ref r = reference(y.data(), m, n); for(int c = 0; c < 3; ++c) { a[c] = r.a[c * n + i] * m[i]; s += r.s[c*n+i]*m[i]; } }
			else for(size_t j : nb[i]) { ld dr[3], r2, raw; pair(y.data(), n, i, j, dr, r2, raw); for(int c = 0; c < 3; ++c) { ld t = -dr[c] * m[i] * m[j] / (r2 * sqrtl(r2)); a[c] += t; s += fabsl(t); } }
			for(int c = 0; c < 3; ++c)
			{
				CHECK(near(f[(c + 3) * n + i] * m[i], a[c], s, 1e-11L), "distance-limited engine", cat("step ", step, " body ", i, " comp ", c, " got ", f[(c + 3) * n + i], " want ", a[c] / m[i]));
				CHECK(f[c * n + i] == y[(c + 3) * n + i], "position derivative", cat("ah body ", i));
			}
		}
		for(auto& x : y) x += rnd() * 0.05;
		e.set_step(step + 1);
	}
	e.free_buffer(Y); e.free_buffer(F);
}
int main(int argc, char** argv)
{
	Args a = args(argc, argv);
	for(int rep = 0; rep < (a.thorough ? 20 : 2); ++rep)
	{
		for(size_t n : {size_t(1), size_t(2), size_t(3), size_t(5), size_t(16), size_t(63), size_t(64), size_t(65), size_t(130)})
			for(int k = 0; k < 4; ++k)
			{
				{ nbody_engine_simple e; one(&e, e.type_name(), n, k); }
				{ nbody_engine_openmp e; one(&e, e.type_name(), n, k); }
				if(n % 64 == 0) { nbody_engine_block e; one(&e, e.type_name(), n, k); }
				{ nbody_engine_ah e(1000, 0.4, 1.5); one(&e, e.type_name(), n, k); }
			}
		for(size_t n : {size_t(64), size_t(128), size_t(192), size_t(256)}) for(int k = 0; k < 4; ++k) { nbody_engine_block e; one(&e, e.type_name(), n, k); }
		for(size_t rate : {size_t(1), size_t(2), size_t(3), size_t(7)}) for(double md : {0.0, 0.5, 10.0}) for(double mf : {0.0, 0.5, 1e9}) ah(2 + rndi(20), rate, md, mf);
	}
	return DONE();
}
