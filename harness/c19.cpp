// Concrete companion of C19: the real OpenCL host code and kernels on a stand-in platform, against the CPU engines.
#include "nbody_data.h"
#include "nbody_engine_opencl.h"
#include "nbody_engine_opencl_bh.h"
#include "nbody_engine_simple.h"
#include "nbody_engine_simple_bh.h"
#include "nbody_solvers.h"
#include "ocl_standin.h"
#include <memory>
static bool stop() { if(!ocl::unsupported) return false; printf("NOTE the stand-in platform does not cover what the code uses\n"); return true; }
struct Conf { const char* dev; size_t n; };
static const Conf confs[] = {{"0:0", 1}, {"1:3", 1}, {"0:0,1", 2}, {"0:1;1:0", 2}, {"0:2,2", 2}, {"0:0,1,2,3", 4}, {"0:3,1;1:0,2", 4}, {"0:0;0:1;1:0;1:1", 4}, {"0:0,1,2,3;1:0,1,2,3", 8}, {"0:0,1,2,3,0,1,2,3", 8}};
typedef std::vector<double> D;
static D read(nbody_engine& e, const nbody_engine::memory* m) { D r(m->size() / sizeof(double)); e.read_buffer(r.data(), m); return r; }
static bool alike(const D& a, const D& b, double tol, std::string& at)
{
	if(a.size() != b.size()) { at = "size"; return false; } double sc = 0; for(double x : b) if(std::isfinite(x)) sc = std::max(sc, std::fabs(x));
	for(size_t i = 0; i < a.size(); ++i) { if(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i])) continue; if(!(std::fabs(a[i] - b[i]) <= tol * std::max(std::fabs(b[i]), 1e-3 * sc))) { at = cat("[", i, "] ", a[i], " instead of ", b[i]); return false; } } return true;
}
static bool SAME(const D& a, const D& b, const char* what, const std::string& w, double tol = 1e-12)
{
	std::string at; bool ok = alike(a, b, tol, at); if(!ocl::complaint.empty()) { FAIL(what, ocl::complaint + ": " + w); ocl::complaint.clear(); ok = false; } EVAL(); if(!ok && !at.empty()) FAIL(what, at + ": " + w); return ok;
}
static void universe(nbody_data& d, size_t n, int kind)
{
	for(size_t i = 0; i < n; ++i)
	{
		nbvertex_t r(rnd() * 5, rnd() * 5, rnd() * 5), v(rnd(), rnd(), rnd()); if(kind == 1 && i % 3 == 1) r = d.get_vertites()[i - 1] + nbvertex_t(2e-5, 1e-5, 0); if(kind == 2) { r.z = 0; r.x *= 50; }
		d.add_body(r, v, rnd(0.1, 3), nbcolor_t(1, 1, 1, 1), 0);
	}
}
static bool start(nbody_engine_opencl& g, const Conf& c, int bs, const std::string& w, bool prof = false) { g.set_block_size(bs); int r = g.select_devices(c.dev, false, prof); if(ocl::unsupported) return false; return CHECK(r == 0, "devices are selected", w); }
static void devices()
{
	CASE("selection of devices"); for(const char* s : {"", "0", "0:", ":0", "2:0", "0:4", "x:0", "0:x", "0:0,", "0:0,9", "0:0;", "0:0;5:0", "0:0,1,2", "0:0,1;1:0", "0:0:0", "-1:0", "0:-1"}) { nbody_engine_opencl e; int r = e.select_devices(s, false, false); if(stop()) return; CHECK(r != 0, "a bad device list is rejected", s); }
	for(const Conf& c : confs) { nbody_engine_opencl e; int r = e.select_devices(c.dev, false, false); if(stop()) return; CHECK(r == 0, "devices are selected", c.dev); }
	nbody_engine_opencl e; nbody_data d; universe(d, 64, 0); CHECK(!e.init(&d) && e.create_buffer(64) == NULL, "without devices there is no engine", ""); nbody_engine_opencl v; CHECK(v.select_devices("0:1,2", true, true) == 0, "verbose selection", "");
}
static void operations(const Conf& c, int bs, int k)
{
	size_t n = size_t(bs) * c.n * (1 + rndi(c.n > 2 ? 2 : 4)); std::string w = cat("devices ", c.dev, " block ", bs, " bodies ", n); CASE(w); SAMPLE(w);
	nbody_data d; universe(d, n, int(rndi(2))); nbody_data d2(d); nbody_engine_opencl g; nbody_engine_simple s; if(!start(g, c, bs, w, rndi(2))) return; CHECK(g.init(&d), "init", w); s.init(&d2);
	try
	{
	SAME(read(g, g.get_y()), read(s, s.get_y()), "state after init", w); size_t z = g.problem_size(); CHECK(z == s.problem_size(), "size of the problem", w);
	const size_t B = 5; nbody_engine::memory_array a, b; for(size_t i = 0; i < B; ++i) { a.push_back(g.create_buffer(z * sizeof(double))); b.push_back(s.create_buffer(z * sizeof(double))); D v(z); for(double& x : v) x = rnd() * 10; if(i == 2) for(double& x : v) x *= 1e-7; g.write_buffer(a[i], v.data()); s.write_buffer(b[i], v.data()); }
	a.push_back(g.get_y()); b.push_back(s.get_y()); std::string h;
	for(int q = 0; q < k; ++q)
	{
		size_t x = rndi(B + 1), y = rndi(B + 1), u = rndi(B + 1); double f = rnd() * 3; int op = int(rndi(11)); std::string o = cat(" ", op, ":", x, ",", y, ",", u, ",", f); h += o; if(h.size() > 160) h = "..." + h.substr(h.size() - 157);
		if(op == 0) { D v(z); for(double& t : v) t = rnd() * 10; g.write_buffer(a[x], v.data()); s.write_buffer(b[x], v.data()); }
		else if(op == 1 && x != y) { g.copy_buffer(a[x], a[y]); s.copy_buffer(b[x], b[y]); }
		else if(op == 2) { g.fill_buffer(a[x], f); s.fill_buffer(b[x], f); }
		else if(op == 3) { g.fmadd_inplace(a[x], a[y], f); s.fmadd_inplace(b[x], b[y], f); }
		else if(op == 4) { g.fmadd(a[x], a[y], a[u], f); s.fmadd(b[x], b[y], b[u], f); }
		else if(op == 5 && x != y) { nbody_engine::memory_array p, r; std::vector<nbcoord_t> co; for(size_t i = 0; i <= B; ++i) if(i != x && i != y && rndi(3)) { p.push_back(a[i]); r.push_back(b[i]); co.push_back(rndi(4) ? rnd() : 0); } if(p.size()) { size_t m = rndi(p.size() + 1); g.fmaddn_corr(a[x], a[y], p, co.data(), m); s.fmaddn_corr(b[x], b[y], r, co.data(), m); } }
		else if(op == 6 || op == 7) { nbody_engine::memory_array p, r; std::vector<nbcoord_t> co; for(size_t i = 0; i <= B; ++i) if(i != x && i != y && rndi(3)) { p.push_back(a[i]); r.push_back(b[i]); co.push_back(rndi(4) ? rnd() : 0); } if(p.size()) { size_t m = rndi(p.size() + 1); if(op == 6) { g.fmaddn_inplace(a[x], p, co.data(), m); s.fmaddn_inplace(b[x], r, co.data(), m); } else { g.fmaddn(a[x], a[y], p, co.data(), m); s.fmaddn(b[x], b[y], r, co.data(), m); } } }
		else if(op == 8) { D v = read(s, b[x]); size_t i = rndi(z); if(rndi(2)) v[i] = rnd() * 1e4; g.write_buffer(a[x], v.data()); s.write_buffer(b[x], v.data()); nbcoord_t m1 = -1, m2 = -2; g.fmaxabs(a[x], m1); s.fmaxabs(b[x], m2); CHECK(near(m1, m2, std::fabs(m2), 1e-12), "largest component", cat(m1, " instead of ", m2, ": ", w, h)); }
		else if(op == 9) { double bx = rnd(0.5, 8); g.clamp(a[x], bx); s.clamp(b[x], bx); }
		else if(op == 10) { nbcoord_t m1 = -1, m2 = -2; g.fmaxabs(a[x], m1); s.fmaxabs(b[x], m2); CHECK(near(m1, m2, std::fabs(m2), 1e-12), "largest component", cat(m1, " instead of ", m2, ": ", w, h)); }
		bool ok = true; double big = 0; for(size_t i = 0; i <= B && ok; ++i) { D v = read(s, b[i]); ok = SAME(read(g, a[i]), v, "operation on buffers", cat("buffer ", i, " ", w, h), 1e-10); for(double t : v) big = std::max(big, std::fabs(t)); } if(!ok) break;
		if(big > 1e6) for(size_t i = 0; i <= B; ++i) { D v(z); for(double& t : v) t = rnd() * 10; g.write_buffer(a[i], v.data()); s.write_buffer(b[i], v.data()); } else if(rndi(2)) for(size_t i = 0; i <= B; ++i) { D v = read(s, b[i]); g.write_buffer(a[i], v.data()); }
	}
	{	// refused without effect
		nbody_engine::memory* t = s.create_buffer(z * sizeof(double)); nbody_engine::memory* sm = g.create_buffer(z * sizeof(double) / 2); nbcoord_t one = 1, m = 7; std::vector<nbcoord_t> co(3, 1.0); nbody_engine::memory_array two(a.begin() + 1, a.begin() + 3), bad(two); bad[1] = t;
		std::vector<D> was; for(auto x : a) was.push_back(read(g, x)); D st = read(s, t);
		for(nbody_engine::memory* x : {(nbody_engine::memory*)NULL, t})
		{
			g.copy_buffer(x, a[0]); g.copy_buffer(a[0], x); g.fill_buffer(x, one); g.fmadd_inplace(x, a[0], one); g.fmadd_inplace(a[0], x, one); g.fmadd(x, a[0], a[1], one); g.fmadd(a[0], x, a[1], one); g.fmadd(a[0], a[1], x, one); g.clamp(x, one); g.fmaxabs(x, m); g.fcompute(0, x, a[0]); g.fcompute(0, a[0], x);
			D junk(z, 5.0); g.write_buffer(x, junk.data()); g.read_buffer(junk.data(), x); CHECK(junk == D(z, 5.0), "reading a buffer that is not one", w); g.fmaddn_corr(x, a[0], two, co.data(), 2); g.fmaddn_corr(a[0], x, two, co.data(), 2);
		}
		g.copy_buffer(a[0], sm); g.fmaddn_corr(a[0], a[4], two, co.data(), 3); g.fmaddn_corr(a[0], a[4], two, NULL, 2);
		bool same = m == 7; for(size_t i = 0; i < a.size(); ++i) same = same && read(g, a[i]) == was[i]; CHECK(same && read(s, t) == st, "invalid arguments are refused without effect", w);
		s.free_buffer(t); g.free_buffer(sm);
	}
	nbody_data o1(d), o2(d2); g.get_data(&o1); s.get_data(&o2); CHECK(o1.is_equal(o2, 1e-9), "data of the engine", w); for(size_t i = 0; i < B; ++i) { g.free_buffer(a[i]); s.free_buffer(b[i]); }
	for(size_t sz : {size_t(64 * c.n), size_t(8 * c.n), size_t(1024 * c.n)}) { nbody_engine::memory* m = g.create_buffer(sz); std::vector<char> t(sz), r(sz); for(char& x : t) x = char(rnd64()); g.write_buffer(m, t.data()); g.read_buffer(r.data(), m); CHECK(t == r && m->size() == sz, "what is written is read", cat("size ", sz, " ", w)); g.free_buffer(m); }
	}
	catch(std::exception& x) { FAIL("operation on buffers", cat("exception ", x.what(), ": ", w)); }
}
static void forces(const Conf& c, int bs, int kind)
{
	size_t n = size_t(bs) * c.n * (1 + rndi(3)); std::string w = cat("forces: devices ", c.dev, " block ", bs, " bodies ", n, " kind ", kind); CASE(w); SAMPLE(w); nbody_data d; universe(d, n, kind); nbody_data d2(d); nbody_engine_opencl g; nbody_engine_simple s; if(!start(g, c, bs, w, rndi(2))) return; g.init(&d); s.init(&d2); size_t z = g.problem_size();
	try
	{
	nbody_engine::memory* f = g.create_buffer(z * sizeof(double)), *h = s.create_buffer(z * sizeof(double)), *y = g.create_buffer(z * sizeof(double)), *y2 = s.create_buffer(z * sizeof(double)); 
	for(int q = 0; q < 3; ++q)
	{
		size_t cc = g.get_compute_count(); g.fcompute(0, g.get_y(), f); s.fcompute(0, s.get_y(), h); SAME(read(g, f), read(s, h), "forces", w, 1e-9); CHECK(g.get_compute_count() == cc + 1, "computations are counted", w);
		D v = read(s, h); g.write_buffer(f, v.data()); g.fmadd(y, g.get_y(), f, 0.01); s.fmadd(y2, s.get_y(), h, 0.01); SAME(read(g, y), read(s, y2), "state after forces", w, 1e-11); g.copy_buffer(g.get_y(), y); s.copy_buffer(s.get_y(), y2); if(q == 1) { g.fcompute(0, y, f); s.fcompute(0, y2, h); SAME(read(g, f), read(s, h), "forces of another state", w, 1e-9); }
	}
	g.free_buffer(f); g.free_buffer(y); s.free_buffer(h); s.free_buffer(y2);
	}
	catch(std::exception& x) { FAIL("forces", cat("exception ", x.what(), ": ", w)); }
}
static void tree(const Conf& c, int bs, int q)
{
	size_t n = size_t(bs) * c.n * (1 + rndi(4)); int kind = int(rndi(3)); e_traverse_type tt = q % 2 ? ett_cycle : ett_nested_tree; e_tree_layout tl = (q / 2) % 2 ? etl_heap : etl_heap_stackless; const double ra[] = {0, 0.5, 1, 3, 10, 1e4}; double ratio = ra[rndi(6)]; size_t rates[] = {0, 1, 2, 3, 1000}, rate = rates[rndi(5)];
	std::string w = cat("tree: devices ", c.dev, " block ", bs, " bodies ", n, " kind ", kind, " ratio ", ratio, tt == ett_cycle ? " cycle" : " nested", tl == etl_heap ? " heap" : " stackless", " rate ", rate); CASE(w); SAMPLE(w);
	nbody_data d; universe(d, n, kind); nbody_data d2(d); nbody_engine_opencl_bh g(ratio, tt, rate, tl); nbody_engine_simple_bh_heap s(ratio, tt, rate); if(!start(g, c, bs, w, rndi(2))) return; g.init(&d); s.init(&d2); size_t z = g.problem_size();
	try
	{
	nbody_engine::memory* f = g.create_buffer(z * sizeof(double)), *h = s.create_buffer(z * sizeof(double)); size_t st = 0;
	for(int k = 0; k < 4; ++k)
	{
		d.set_step(st); d2.set_step(st); g.fcompute(0, g.get_y(), f); s.fcompute(0, s.get_y(), h); if(!SAME(read(g, f), read(s, h), "tree forces", cat("call ", k, " step ", st, " ", w), 1e-8)) break;
		D v = read(s, s.get_y()); for(size_t i = 0; i < z / 2; ++i) v[i] += 0.3 * rnd(); g.write_buffer(g.get_y(), v.data()); s.write_buffer(s.get_y(), v.data()); st += 1 + rndi(2);
	}
	g.free_buffer(f); s.free_buffer(h);
	}
	catch(std::exception& x) { FAIL("tree forces", cat("exception ", x.what(), ": ", w)); }
}
static void solve(const Conf& c, int q)
{
	std::string w = cat("solver: devices ", c.dev, " ", q); CASE(w); nbody_data d; universe(d, 16 * c.n, 0); nbody_data d2(d); nbody_engine_opencl g; nbody_engine_simple s; if(!start(g, c, 16, w)) return; g.init(&d); s.init(&d2);
	try
	{
	auto go = [&](nbody_engine & e, nbody_data & x) { std::unique_ptr<nbody_solver> so; if(q == 0) so.reset(new nbody_solver_rk4); else if(q == 1) so.reset(new nbody_solver_adams(new nbody_solver_euler, 3, true)); else if(q == 2) so.reset(new nbody_solver_bulirsch_stoer(4)); else { nbody_solver_rkck* r = new nbody_solver_rkck; r->set_error_threshold(1e-6); r->set_correction(true); so.reset(r); } so->set_engine(&e); so->set_time_step(1e-5, 1e-3); so->set_clamp_to_box(false); so->run(&x, NULL, 3e-3, 0, 0); e.get_data(&x); };
	go(g, d); go(s, d2); D a, b; for(size_t i = 0; i < d.get_count(); ++i) for(int k = 0; k < 2; ++k) { const nbvertex_t& p = k ? d.get_velosites()[i] : d.get_vertites()[i], &r = k ? d2.get_velosites()[i] : d2.get_vertites()[i]; a.push_back(p.x); a.push_back(p.y); a.push_back(p.z); b.push_back(r.x); b.push_back(r.y); b.push_back(r.z); } SAME(a, b, "trajectory", w, 1e-7); CHECK(d.get_step() == d2.get_step() && near(d.get_time(), d2.get_time(), 1, 1e-12), "time and step", w);
	}
	catch(std::exception& x) { FAIL("trajectory", cat("exception ", x.what(), ": ", w)); }
}
int main(int argc, char** argv)
{
	Args a = args(argc, argv); ocl::dir = a.dir; ocl::seed = 88172645463325252ULL + uint64_t(a.seed) * 977; int f = a.thorough ? 5 : 1;
	if(a.group == "all" || a.group == "devices") devices();
	for(int r = 0; r < f && !stop(); ++r)
	{
		for(const Conf& c : confs)
		{
			if(stop()) break;
			if(a.group == "all" || a.group == "operations") for(int bs : {64, 16}) operations(c, bs, 60);
			if(a.group == "all" || a.group == "forces") for(int bs : {64, 16, 8}) for(int k = 0; k < 3; ++k) forces(c, bs, k);
			if(a.group == "all" || a.group == "tree") for(int bs : {64, 16, 4}) for(int k = 0; k < 8; ++k) tree(c, bs, k);
			if(a.group == "all" || a.group == "solve") for(int q = 0; q < 4; ++q) solve(c, q);
		}
	}
	return DONE();
}
