#include "nbody_engine_simple_bh.h"
#include "nbody_space_tree.h"
#include "nbody_space_heap_stackless.h"
#include "nbody_data.h"
#include "common.h"
#include <memory>
#include <omp.h>
typedef std::vector<double> V;
// ---------------------------------------------------------------- oracle: kd tree of index sets
struct Node { std::vector<size_t> b; int l, r; ld m, c[3], lo[3], hi[3], rad2; };
struct Oracle
{
	std::vector<Node> t; bool heap;
	static size_t left_count(size_t n, bool heap) { if(!heap) return n / 2; size_t p = 1; while(2 * p <= n) p *= 2; return std::min(p, n - p / 2); }
	int mk(std::vector<size_t> b, const V& y, size_t n, int dim)
	{
		int id = int(t.size()); t.push_back(Node()); t[id].b = b; t[id].l = t[id].r = -1;
		if(b.size() == 1) return id;
		std::sort(b.begin(), b.end(), [&](size_t p, size_t q) { return y[dim * n + p] < y[dim * n + q]; });
		size_t k = left_count(b.size(), heap);
		int l = mk(std::vector<size_t>(b.begin(), b.begin() + k), y, n, (dim + 1) % 3), r = mk(std::vector<size_t>(b.begin() + k, b.end()), y, n, (dim + 1) % 3);
		t[id].l = l; t[id].r = r; return id;
	}
	void build(const V& y, size_t n, bool h) { heap = h; t.clear(); std::vector<size_t> b(n); for(size_t i = 0; i < n; ++i) b[i] = i; mk(b, y, n, 0); }
	void update(const V& y, const double* mass, size_t n, ld ratio)
	{
		for(auto& q : t)
		{
			q.m = 0; for(int d = 0; d < 3; ++d) { q.c[d] = 0; q.lo[d] = INFINITY; q.hi[d] = -INFINITY; }
			for(size_t b : q.b) { q.m += mass[b]; for(int d = 0; d < 3; ++d) { ld x = y[d * n + b]; q.c[d] += mass[b] * x; q.lo[d] = std::min(q.lo[d], x); q.hi[d] = std::max(q.hi[d], x); } }
			ld diag = 0, off = 0; for(int d = 0; d < 3; ++d) { q.c[d] /= q.m; diag += (q.hi[d] - q.lo[d]) * (q.hi[d] - q.lo[d]); ld o = (q.hi[d] + q.lo[d]) / 2 - q.c[d]; off += o * o; }
			ld r = sqrtl(diag) / 2 + sqrtl(off); q.rad2 = q.b.size() == 1 ? 0 : r * r * ratio * ratio; if(q.b.size() == 1) for(int d = 0; d < 3; ++d) q.c[d] = y[d * n + q.b[0]];
		}
	}
	// acceleration at x; returns false when a decision is too close to call in double precision
	bool acc(int id, const ld* x, ld* a, ld& scale) const
	{
		const Node& q = t[id]; ld dd = 0, dr[3]; for(int d = 0; d < 3; ++d) { dr[d] = x[d] - q.c[d]; dd += dr[d] * dr[d]; }
		if(q.l >= 0 && fabsl(dd - q.rad2) <= 1e-9L * (dd + q.rad2) + 1e-24L) return false;
		if(dd > q.rad2)
		{
			ld r2 = std::max(dd, (ld)1e-8); ld k = q.m / (r2 * sqrtl(r2)); for(int d = 0; d < 3; ++d) { a[d] -= dr[d] * k; } scale += k * sqrtl(dd); return true;
		}
		if(q.l < 0) return true;
		return acc(q.l, x, a, scale) && acc(q.r, x, a, scale);
	}
};
static V positions(size_t n, int kind)
{
	V y(6 * n);
	for(auto& q : y) q = rnd() * 3;
	if(kind == 1) for(size_t i = 0; i < n; ++i) { y[i] *= 100; y[2 * n + i] *= 1e-2; }
	if(kind == 2) for(size_t i = 1; i < n; i += 3) for(int d = 0; d < 3; ++d) y[d * n + i] = y[d * n + i - 1];   // coincident pairs
	if(kind == 3) for(size_t i = 1; i < n; i += 4) for(int d = 0; d < 3; ++d) y[d * n + i] = y[d * n + i - 1] + rnd() * 3e-5; // closer than the softening
	if(kind == 4) for(size_t i = 0; i < n; ++i) for(int d = 0; d < 3; ++d) y[d * n + i] = 1.25;               // all coincident
	if(kind == 5) for(size_t i = 0; i < n; ++i) { y[n + i] = 0; y[2 * n + i] = 0; }                            // a line
	return y;
}
static V masses(size_t n, int kind) { V m(n); for(auto& q : m) q = kind == 1 ? std::pow(10., rnd(-4, 4)) : rnd(0.2, 2); return m; }
// ---------------------------------------------------------------- c11: structure
template<class H> static void heap_structure(const H& h, size_t n, const V& y, const V& mass, double ratio, const std::string& w)
{
	const auto& mc = h.get_mass_center(); const auto& ms = h.get_mass(); const auto& r2 = h.get_radius_sqr(); const auto& bn = h.get_body_n();
	if(!CHECK(mc.size() == 2 * n && ms.size() == 2 * n && r2.size() == 2 * n && bn.size() == 2 * n, "heap size", cat(w, " got ", bn.size(), " want ", 2 * n))) return;
	std::vector<std::vector<size_t>> sub(2 * n); std::vector<int> seen(n, 0);
	for(size_t q = 2 * n - 1; q >= 1; --q)
	{
		if(q >= n)
		{
			if(!CHECK(bn[q] < n, "leaf body", cat(w, " leaf ", q, " body ", bn[q]))) return;
			size_t b = bn[q]; ++seen[b]; sub[q].push_back(b);
			CHECK(mc[q].x == y[b] && mc[q].y == y[n + b] && mc[q].z == y[2 * n + b], "leaf position", cat(w, " leaf ", q));
			CHECK(ms[q] == mass[b], "leaf mass", cat(w, " leaf ", q));
			CHECK(r2[q] == 0, "leaf radius", cat(w, " leaf ", q, " radius^2 ", r2[q]));
			continue;
		}
		CHECK(bn[q] >= n, "inner node has no body", cat(w, " node ", q));
		sub[q] = sub[2 * q]; sub[q].insert(sub[q].end(), sub[2 * q + 1].begin(), sub[2 * q + 1].end());
		ld m = 0, c[3] = {0, 0, 0}, lo[3], hi[3], ab[3] = {0, 0, 0}; for(int d = 0; d < 3; ++d) { lo[d] = INFINITY; hi[d] = -INFINITY; }
		for(size_t b : sub[q]) { m += mass[b]; for(int d = 0; d < 3; ++d) { ld x = y[d * n + b]; c[d] += mass[b] * x; ab[d] += fabsl(mass[b] * x); lo[d] = std::min(lo[d], x); hi[d] = std::max(hi[d], x); } }
		CHECK(near(ms[q], m, m, 1e-12L), "mass of a node", cat(w, " node ", q, " got ", ms[q], " want ", double(m)));
		ld g[3] = {mc[q].x, mc[q].y, mc[q].z}, diag = 0, off = 0, sc = 0;
		for(int d = 0; d < 3; ++d) { CHECK(near(g[d], c[d] / m, ab[d] / m, 1e-11L), "mass center of a node", cat(w, " node ", q, " axis ", d, " got ", double(g[d]), " want ", double(c[d] / m))); diag += (hi[d] - lo[d]) * (hi[d] - lo[d]); ld o = (hi[d] + lo[d]) / 2 - c[d] / m; off += o * o; sc += std::max(fabsl(lo[d]), fabsl(hi[d])); }
		ld r = sqrtl(diag) / 2 + sqrtl(off);
		CHECK(fabsl(sqrtl(r2[q]) - r * ratio) <= 1e-11L * (r + sc) * ratio, "radius of a node", cat(w, " node ", q, " got ", double(sqrtl(r2[q])), " want ", double(r * ratio)));
		for(size_t b : sub[q]) { ld dd = 0; for(int d = 0; d < 3; ++d) { ld x = y[d * n + b] - g[d]; dd += x * x; } CHECK(sqrtl(dd) * ratio <= sqrtl(r2[q]) + 1e-10L * (r + sc) * (ratio + 1), "every body of a node is within its radius", cat(w, " node ", q, " body ", b)); }
	}
	for(size_t b = 0; b < n; ++b) CHECK(seen[b] == 1, "every body in exactly one leaf", cat(w, " body ", b, " count ", seen[b]));
}
template<class H> static void kd_split(const H& h, size_t n, const V& y, const std::string& w)
{
	const auto& bn = h.get_body_n(); if(bn.size() != 2 * n) return;
	for(size_t q = 1; q < n; ++q)
	{
		int lev = 0; for(size_t t = q; t > 1; t >>= 1) ++lev; int dim = lev % 3;
		ld lmax = -INFINITY, rmin = INFINITY;
		std::function<void(size_t, bool)> go = [&](size_t k, bool left) { if(k >= n) { size_t b = bn[k]; if(b >= n) return; ld x = y[dim * n + b]; if(left) lmax = std::max(lmax, x); else rmin = std::min(rmin, x); return; } go(2 * k, left); go(2 * k + 1, left); };
		go(2 * q, true); go(2 * q + 1, false);
		CHECK(lmax <= rmin, "children separated along the node's axis", cat(w, " node ", q, " axis ", dim));
	}
}
template<class T> static void visits(const T& t, size_t n, const V& y, const V& mass, const std::string& w)
{
	std::vector<int> cnt(n, 0); bool bad = false;
	t.traverse([&](size_t b, const nbvertex_t& v, nbcoord_t m)
	{
		#pragma omp critical
		{ if(b >= n) bad = true; else { ++cnt[b]; if(v.x != y[b] || v.y != y[n + b] || v.z != y[2 * n + b] || m != mass[b]) bad = true; } }
	});
	CHECK(!bad, "visitor sees the bodies", w);
	for(size_t b = 0; b < n; ++b) CHECK(cnt[b] == 1, "visitor sees each body once", cat(w, " body ", b, " visits ", cnt[b]));
}
static void mass_sum(const nbody_data& d, const std::function<nbvertex_t(const nbvertex_t&)>& f, const V& y, const V& mass, size_t n, const std::string& w)
{
	// far away the tree is one point mass: total mass and center are those of all bodies
	ld m = 0, c[3] = {0, 0, 0}; for(size_t b = 0; b < n; ++b) { m += mass[b]; for(int k = 0; k < 3; ++k) c[k] += mass[b] * y[k * n + b]; } for(int k = 0; k < 3; ++k) c[k] /= m;
	nbvertex_t x(1e5, -2e5, 3e5), g = f(x); ld dr[3] = {x.x - c[0], x.y - c[1], x.z - c[2]}, r2 = dr[0] * dr[0] + dr[1] * dr[1] + dr[2] * dr[2], k = m / (r2 * sqrtl(r2)); ld s = m / r2;
	CHECK(near(g.x, -dr[0] * k, s, 1e-10L) && near(g.y, -dr[1] * k, s, 1e-10L) && near(g.z, -dr[2] * k, s, 1e-10L), "far field is the total mass at the mass center", w); (void)d;
}
// radii, seen from outside: at probe points near and far the force is that of the opening rule applied to the box radius of every node
static void probes(const nbody_data& d, const Oracle& o, const std::function<nbvertex_t(const nbvertex_t&)>& f, const std::string& w)
{
	for(int k = 0; k < 60; ++k)
	{
		double r = std::pow(10., rnd(-0.5, 2.5)); ld x[3] = {rnd() * r, rnd() * r, rnd() * r}, a[3] = {0, 0, 0}, s = 0; if(!o.acc(0, x, a, s)) continue;
		nbvertex_t g = f(nbvertex_t(x[0], x[1], x[2])); double G[3] = {g.x, g.y, g.z};
		for(int q = 0; q < 3; ++q) CHECK(near(G[q], a[q], s, 1e-9L), "nodes are opened by the radius of their box", cat(w, " at ", double(x[0]), " ", double(x[1]), " ", double(x[2]), " axis ", q, " got ", G[q], " want ", double(a[q])));
	}
	(void)d;
}
static void structure(size_t n, int kind, double ratio)
{
	V y = positions(n, kind), mass = masses(n, kind); const double* p = y.data(); std::string w = cat("n=", n, " kind=", kind, " ratio=", ratio); CASE(w);
	nbody_data d; nbody_space_heap h; nbody_space_heap_stackless hs; nbody_space_tree t;
	CHECK(h.is_empty() && t.is_empty(), "new tree is empty", w);
	// a larger build before, so that nothing of it may survive
	if(n > 3) { V y0 = positions(2 * n, 0), m0 = masses(2 * n, 0); h.build(2 * n, y0.data(), y0.data() + 2 * n, y0.data() + 4 * n, m0.data(), 3); t.build(2 * n, y0.data(), y0.data() + 2 * n, y0.data() + 4 * n, m0.data(), 3); V y1 = positions(n / 2, 0), m1 = masses(n / 2, 0); hs.build(n / 2, y1.data(), y1.data() + n / 2, y1.data() + 2 * (n / 2), m1.data(), 3); }
	h.build(n, p, p + n, p + 2 * n, mass.data(), ratio); hs.build(n, p, p + n, p + 2 * n, mass.data(), ratio); t.build(n, p, p + n, p + 2 * n, mass.data(), ratio);
	CHECK(!h.is_empty() && !t.is_empty(), "built tree is not empty", w);
	heap_structure(h, n, y, mass, ratio, w + " heap"); kd_split(h, n, y, w + " heap"); heap_structure(hs, n, y, mass, ratio, w + " stackless");
	visits(h, n, y, mass, w + " heap"); visits(hs, n, y, mass, w + " stackless"); visits(t, n, y, mass, w + " tree");
	if(ratio < 1000) { mass_sum(d, [&](const nbvertex_t& x) { return t.traverse(&d, x, 1); }, y, mass, n, w + " tree"); mass_sum(d, [&](const nbvertex_t& x) { return h.traverse(&d, x, 1); }, y, mass, n, w + " heap"); mass_sum(d, [&](const nbvertex_t& x) { return hs.traverse(&d, x, 1); }, y, mass, n, w + " stackless"); }
	bool probe = (kind < 2 || kind == 3) && n > 1; Oracle ot, oh; if(probe) { ot.build(y, n, false); oh.build(y, n, true); }
	auto all_probes = [&](double ra, const std::string& w2) { if(!probe) return; ot.update(y, mass.data(), n, ra); oh.update(y, mass.data(), n, ra); probes(d, ot, [&](const nbvertex_t& x) { return t.traverse(&d, x, 1); }, w2 + " tree"); probes(d, oh, [&](const nbvertex_t& x) { return h.traverse(&d, x, 1); }, w2 + " heap"); probes(d, oh, [&](const nbvertex_t& x) { return hs.traverse(&d, x, 1); }, w2 + " stackless"); };
	all_probes(ratio, w);
	std::vector<size_t> before = h.get_body_n();
	for(int rep = 0; rep < 2; ++rep)
	{
		double ra = rep ? ratio * 1.5 + 0.1 : ratio; y = positions(n, rep ? kind : 0); p = y.data(); std::string w2 = cat(w, " rebuild ", rep);
		h.rebuild(n, p, p + n, p + 2 * n, ra); hs.rebuild(n, p, p + n, p + 2 * n, ra); t.rebuild(n, p, p + n, p + 2 * n, ra);
		heap_structure(h, n, y, mass, ra, w2 + " heap"); heap_structure(hs, n, y, mass, ra, w2 + " stackless"); CHECK(h.get_body_n() == before, "rebuild keeps the assignment of bodies to leaves", w2);
		all_probes(ra, w2);
		visits(h, n, y, mass, w2 + " heap"); visits(t, n, y, mass, w2 + " tree");
		if(ra < 1000) { mass_sum(d, [&](const nbvertex_t& x) { return t.traverse(&d, x, 1); }, y, mass, n, w2 + " tree"); mass_sum(d, [&](const nbvertex_t& x) { return hs.traverse(&d, x, 1); }, y, mass, n, w2 + " stackless"); }
	}
	SAMPLE(w);
}
// ---------------------------------------------------------------- c21: forces
static nbody_engine* mk(int k, double ratio, int tt, size_t rate)
{
	auto T = e_traverse_type(tt);
	switch(k) { case 0: return new nbody_engine_simple_bh_tree(ratio, T, rate); case 1: return new nbody_engine_simple_bh_heap(ratio, T, rate); default: return new nbody_engine_simple_bh_heap_stackless(ratio, T, rate); }
}
static void forces(size_t n, int kind, double ratio, int layout, int tt, size_t rate)
{
	std::unique_ptr<nbody_engine> e(mk(layout, ratio, tt, rate)); std::string w = cat(e->type_name(), " n=", n, " kind=", kind, " ratio=", ratio, tt ? " nested" : " cycle", " rate=", rate); CASE(w);
	V y = positions(n, kind), mass = masses(n, kind); nbody_data d;
	for(size_t i = 0; i < n; ++i) d.add_body(nbvertex_t(y[i], y[n + i], y[2 * n + i]), nbvertex_t(y[3 * n + i], y[4 * n + i], y[5 * n + i]), mass[i], nbcolor_t());
	size_t step = rndi(3); d.set_step(step); e->init(&d);
	auto* f = e->create_buffer(48 * n); auto* g = e->create_buffer(48 * n); auto* yb = e->create_buffer(48 * n);
	bool exact = ratio >= 1e5, ties = kind == 2 || kind == 4 || kind == 5; Oracle o; bool have = false;
	for(int r = 0; r < 5; ++r)
	{
		if(r) { y = positions(n, exact && r % 2 ? 2 : ties ? kind : 0); if(r != 2) e->advise_time(0.1); }
		e->write_buffer(yb, y.data()); e->fill_buffer(f, 777); e->fill_buffer(g, 5);
		size_t c0 = e->get_compute_count(); e->fcompute(0, yb, f); CHECK(e->get_compute_count() == c0 + 1, "evaluations are counted", w);
		V F(6 * n), Y(6 * n), G(6 * n); e->read_buffer(F.data(), f); e->read_buffer(Y.data(), yb); e->read_buffer(G.data(), g);
		CHECK(!memcmp(Y.data(), y.data(), 48 * n), "state unchanged", w); for(double q : G) if(q != 5) { FAIL("other buffer unchanged", w); break; }
		if(!have || rate == 0 || d.get_step() % rate == 0) { o.build(y, n, layout != 0); have = true; }
		o.update(y, mass.data(), n, ratio);
		for(size_t i = 0; i < n; ++i)
		{
			for(int q = 0; q < 3; ++q) CHECK(F[q * n + i] == y[(3 + q) * n + i], "derivative of the position is the velocity", cat(w, " body ", i));
			ld x[3] = {y[i], y[n + i], y[2 * n + i]}, a[3] = {0, 0, 0}, s = 0; bool ok = true;
			if(exact) { for(size_t j = 0; j < n; ++j) if(j != i) { ld dr[3], dd = 0; for(int q = 0; q < 3; ++q) { dr[q] = x[q] - y[q * n + j]; dd += dr[q] * dr[q]; } ld r2 = std::max(dd, (ld)1e-8), k = mass[j] / (r2 * sqrtl(r2)); for(int q = 0; q < 3; ++q) a[q] -= dr[q] * k; s += k * sqrtl(dd); } }
			else if(ties) continue; else ok = o.acc(0, x, a, s);
			if(!ok) continue;
			for(int q = 0; q < 3; ++q) CHECK(near(F[(3 + q) * n + i], a[q], s, 1e-9L), exact ? "with a huge ratio the result is the exact sum" : "acceleration follows the opening rule", cat(w, " evaluation ", r, " body ", i, " axis ", q, " got ", F[(3 + q) * n + i], " want ", double(a[q])));
		}
	}
	e->fcompute(0, nullptr, f); e->fcompute(0, yb, nullptr);
	e->free_buffer(f); e->free_buffer(g); e->free_buffer(yb); SAMPLE(w);
}
static void layouts_agree(size_t n, double ratio, size_t rate)
{
	CASE(cat("layouts n=", n, " ratio=", ratio)); V y = positions(n, 0), mass = masses(n, 0); V ref;
	for(int layout = 0; layout < 3; ++layout) for(int tt = 0; tt < 2; ++tt) for(int th : {1, 4})
	{
		omp_set_num_threads(th); std::unique_ptr<nbody_engine> e(mk(layout, ratio, tt, rate)); nbody_data d;
		for(size_t i = 0; i < n; ++i) d.add_body(nbvertex_t(y[i], y[n + i], y[2 * n + i]), nbvertex_t(0, 0, 0), mass[i], nbcolor_t());
		e->init(&d); auto* f = e->create_buffer(48 * n); e->fcompute(0, e->get_y(), f); V F(6 * n); e->read_buffer(F.data(), f); e->free_buffer(f);
		if(ref.empty()) ref = F;
		for(size_t k = 0; k < 6 * n; ++k) CHECK(near(F[k], ref[k], fabsl(ref[k]) + 1e-6L, 1e-9L), "layouts and traversals agree", cat(e->type_name(), " n=", n, " ratio=", ratio, tt ? " nested" : " cycle", " threads ", th, " element ", k));
	}
	omp_set_num_threads(4);
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv);
	std::vector<size_t> ns; for(size_t n = 1; n <= (A.thorough ? 70u : 18u); ++n) ns.push_back(n); for(size_t n : {31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 256, 300}) ns.push_back(n);
	if(A.group == "c11") { for(size_t n : ns) for(int kind = 0; kind < 6; ++kind) for(double ra : {0.0, 1.0, 10.0}) structure(n, kind, ra); if(A.thorough) for(size_t n : {1000, 1024, 3333}) structure(n, 0, 3); }
	if(A.group == "c21")
	{
		for(size_t n : ns) for(int l = 0; l < 3; ++l) for(int tt = 0; tt < 2; ++tt) for(int kind = 0; kind < 6; ++kind)
		{
			const double ra[] = {1e6, 1.5, 3, 0.7, 10, 0}; size_t rates[] = {0, 1, 3, 2};
			forces(n, kind, 1e6, l, tt, rates[(n + kind) % 4]); forces(n, kind % 2, ra[1 + (n + kind) % 5], l, tt, rates[(n + l + kind) % 4]);
			if(A.thorough) for(int q = 0; q < 6; ++q) for(size_t rt : rates) forces(n, kind, ra[q], l, tt, rt);
		}
		for(size_t n : {64, 128, 256}) for(double ra : {1.5, 10.0, 1e6}) layouts_agree(n, ra, 0);
	}
	return DONE();
}
