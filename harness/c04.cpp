#include "nbody_engine_simple.h"
#include "nbody_engine_openmp.h"
#include "nbody_engine_block.h"
#include "nbody_engine_ah.h"
#include "nbody_engine_simple_bh.h"
#include "nbody_data.h"
#include "common.h"
#include <memory>
typedef std::vector<double> V;
static nbody_engine* mk(int k)
{
	switch(k) { case 0: return new nbody_engine_simple; case 1: return new nbody_engine_openmp; case 2: return new nbody_engine_block; case 3: return new nbody_engine_ah(10, 0.5, 0.5);
	case 4: return new nbody_engine_simple_bh_tree(10); case 5: return new nbody_engine_simple_bh_heap(10); default: return new nbody_engine_simple_bh_heap_stackless(10); }
}
static bool same(const nbvertex_t& a, const nbvertex_t& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static void bodies(nbody_engine* e, nbody_data& d, const std::string& w)
{
	size_t n = d.get_count(); V y(6 * n);
	CHECK(e->problem_size() == 6 * n, "problem size", w);
	CHECK(e->get_y() != nullptr && e->get_y()->size() == 48 * n, "state buffer size", w);
	e->read_buffer(y.data(), e->get_y());
	for(size_t i = 0; i < n; ++i)
	{
		nbvertex_t r(y[i], y[n + i], y[2 * n + i]), v(y[3 * n + i], y[4 * n + i], y[5 * n + i]);
		CHECK(same(r, d.get_vertites()[i]), "position in the state", cat(w, " body ", i));
		CHECK(same(v, d.get_velosites()[i]), "velocity in the state", cat(w, " body ", i));
	}
}
static void history(int k, size_t n, int len)
{
	// any order of writing the state, changing bodies, moving the clock and reading back into several containers
	std::unique_ptr<nbody_engine> e(mk(k)); std::string h = cat(e->type_name(), " n=", n); CASE(h); nbody_data d; fill_data(d, n, 0); nbody_data c[3]; for(auto& x : c) fill_data(x, n, 0);
	if(!CHECK(e->init(&d), "init", h)) return; V y(6 * n); e->read_buffer(y.data(), e->get_y()); auto* b = e->create_buffer(48 * n);
	for(int q = 0; q < len; ++q)
	{
		int op = rndi(8);
		if(op == 0) { for(auto& v : y) v = rnd(); e->write_buffer(e->get_y(), y.data()); h += " write"; }
		else if(op == 1) { e->advise_time(rnd()); h += " clock"; }
		else if(op == 2) { e->set_step(rndi(5)); e->set_time(rnd()); h += " set_step"; }
		else if(op == 3) { e->fcompute(0, e->get_y(), b); h += " fcompute"; }
		else if(op == 4) { e->fill_buffer(b, 0.5); e->fmadd_inplace(e->get_y(), b, 2); for(auto& v : y) v += 1; h += " add"; }
		else if(op == 5) { nbody_data& x = rndi(4) ? c[rndi(3)] : d; for(size_t i = 0; i < n; ++i) { x.get_vertites()[i] = nbvertex_t(1, 2, 3); x.get_velosites()[i] = nbvertex_t(4, 5, 6); } h += " change"; }
		else
		{
			int w = rndi(4); nbody_data& x = w == 3 ? d : c[w]; h += cat(" get(", w, ")"); e->get_data(&x); bool ok = true;
			for(size_t i = 0; i < n; ++i) ok = ok && same(x.get_vertites()[i], nbvertex_t(y[i], y[n + i], y[2 * n + i])) && same(x.get_velosites()[i], nbvertex_t(y[3 * n + i], y[4 * n + i], y[5 * n + i]));
			if(!CHECK(ok, "get_data gives the current state", h)) return;
		}
		V z(6 * n); e->read_buffer(z.data(), e->get_y()); if(!CHECK(!memcmp(z.data(), y.data(), 48 * n), "the state is what was written", h)) return;
	}
	e->free_buffer(b);
}
static void one(int k, size_t n, int kind)
{
	std::unique_ptr<nbody_engine> e(mk(k)); std::string w = cat(e->type_name(), " n=", n, " kind=", kind); CASE(w);
	nbody_data d; fill_data(d, n, kind); d.set_time(rnd()); d.set_step(rndi(1000));
	double t0 = d.get_time(); size_t s0 = d.get_step(); nbody_data keep(d);
	CHECK(e->init(&d), "init", w); bodies(e.get(), keep, w);
	CHECK(d.is_equal(keep), "init changed the bodies", w);
	CHECK(e->get_time() == t0 && e->get_step() == s0, "clock after init", w);
	nbody_data o; fill_data(o, n, 0); nbody_data okeep(o); e->get_data(&o);
	for(size_t i = 0; i < n; ++i)
	{
		CHECK(same(o.get_vertites()[i], keep.get_vertites()[i]) && same(o.get_velosites()[i], keep.get_velosites()[i]), "round trip", cat(w, " body ", i));
		CHECK(o.get_mass()[i] == okeep.get_mass()[i], "get_data changed a mass", cat(w, " body ", i));
	}
	CHECK(o.get_time() == okeep.get_time() && o.get_step() == okeep.get_step(), "get_data changed the clock of the target", w);
	V y(6 * n); for(auto& q : y) q = rnd() * std::pow(10., rnd(-300, 300)); if(n > 1) { y[0] = -0.0; y[1] = INFINITY; }
	e->write_buffer(e->get_y(), y.data()); e->get_data(&d);
	for(size_t i = 0; i < n; ++i)
	{
		CHECK(same(d.get_vertites()[i], nbvertex_t(y[i], y[n + i], y[2 * n + i])), "get_data position", cat(w, " body ", i));
		CHECK(same(d.get_velosites()[i], nbvertex_t(y[3 * n + i], y[4 * n + i], y[5 * n + i])), "get_data velocity", cat(w, " body ", i));
		CHECK(d.get_mass()[i] == keep.get_mass()[i], "get_data mass", cat(w, " body ", i));
	}
	double t = t0; size_t s = s0;
	for(int q = 0; q < 20; ++q)
	{
		int op = rndi(3);
		if(op == 0) { double dt = rnd() * std::pow(10., rnd(-12, 3)); e->advise_time(dt); t += dt; ++s; }
		if(op == 1) { t = rnd() * 1e6; e->set_time(t); }
		if(op == 2) { s = rndi(1u << 30); e->set_step(s); }
		CHECK(e->get_time() == t && d.get_time() == t, "time", cat(w, " op ", op, " got ", e->get_time(), " want ", t));
		CHECK(e->get_step() == s && d.get_step() == s, "step", cat(w, " op ", op));
	}
	V y2(6 * n); e->read_buffer(y2.data(), e->get_y()); CHECK(!memcmp(y.data(), y2.data(), 48 * n), "clock touched the state", w);
	// buffers of any size
	for(size_t c : {size_t(0), size_t(1), size_t(3), size_t(40)})
	{
		size_t b = rndi(300) * 8; auto vec = e->create_buffers(b, c);
		CHECK(vec.size() == c, "buffer count", w);
		std::vector<std::vector<char>> cont;
		for(auto* m : vec) { CHECK(m != nullptr && m->size() == b, "buffer size", w); std::vector<char> x(b + 1); for(auto& q : x) q = char(rndi(256)); cont.push_back(x); e->write_buffer(m, x.data()); }
		for(size_t q = 0; q < vec.size(); ++q) { std::vector<char> g(b + 1, 'Z'); e->read_buffer(g.data(), vec[q]); CHECK(!memcmp(g.data(), cont[q].data(), b), "buffer contents", cat(w, " buffer ", q)); CHECK(g[b] == 'Z', "read beyond the buffer", w); }
		e->free_buffers(vec); CHECK(vec.empty(), "free_buffers leaves the list empty", w);
	}
	e->read_buffer(y2.data(), e->get_y()); CHECK(!memcmp(y.data(), y2.data(), 48 * n), "buffers touched the state", w);
	e->free_buffer(nullptr);
	// a second engine over the moved bodies starts from them
	nbody_data d2(d); std::unique_ptr<nbody_engine> e2(mk(k)); CHECK(e2->init(&d2), "second init", w); if(kind != 1) bodies(e2.get(), d2, w + " second");
	// the same engine, initialised again with other bodies
	nbody_data d3; fill_data(d3, n, 0); CHECK(e->init(&d3), "init again", w); bodies(e.get(), d3, w + " again"); e->advise_time(1); CHECK(d3.get_step() == 1 && d.get_step() == s, "clock belongs to the new bodies", w);
	SAMPLE(w);
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv);
	for(int rep = 0; rep < (A.thorough ? 2000 : 150); ++rep) for(int k = 0; k < 7; ++k) history(k, k == 2 ? 64 : 1 + rndi(6), 12);
	for(int rep = 0; rep < (A.thorough ? 30 : 3); ++rep) for(int k = 0; k < 7; ++k) for(size_t n : {size_t(1), size_t(2), size_t(7), size_t(64), size_t(129)}) for(int kind : {0, 1, 2}) one(k, n, kind);
	return DONE();
}
