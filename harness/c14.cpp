#include "nbody_data.h"
#include "nbody_engine_simple.h"
#include "nbody_solver.h"
#include "nbody_solver_euler.h"
#include "nbody_data_stream.h"
#include "nbody_step_visitor.h"
#include "common.h"
#include <QDebug>
static void quiet(QtMsgType, const QMessageLogContext&, const QString&) {}
// everything observable during a run, in order
struct Ev { char k; double t; size_t n; double x; };
static std::vector<Ev> g_log;
static nbody_data* g_d; static double g_x() { return g_d->get_vertites()[0].x; }
struct Eng : nbody_engine_simple
{
	void clamp(memory* y, nbcoord_t b) override { g_log.push_back({y == get_y() ? 'c' : '?', b, 0, 0}); }
	double y0() { std::vector<double> b(problem_size()); read_buffer(b.data(), get_y()); return b[0]; }
};
struct Sol : nbody_solver
{
	std::vector<double> dts; size_t k = 0; Eng* e;
	const char* type_name() const override { return "fake"; }
	void advise(nbcoord_t dt) override
	{
		double q = dts.empty() ? dt : dts[k % dts.size()]; ++k; e->advise_time(q);
		std::vector<double> b(e->problem_size()); e->read_buffer(b.data(), e->get_y()); b[0] += 1; e->write_buffer(e->get_y(), b.data());
		g_log.push_back({'s', dt, k, b[0]});
	}
};
struct Str : nbody_data_stream
{
	long fail_at = -1, n = 0;
	int write(const nbody_data* d) override { g_log.push_back({d == g_d ? 'w' : '?', d->get_time(), d->get_step(), d->get_vertites()[0].x}); return n++ == fail_at ? (n % 2 ? -1 : 7) : 0; }
};
struct Vis : nbody_step_visitor { int id; void visit(const nbody_data* d) override { g_log.push_back({d == g_d ? 'v' : '?', d->get_time(), size_t(id), d->get_last_total_impulce().x}); } };
struct Cfg { double t0, max, dump, check, dt; bool clamp, stream; int nv; long fail; std::vector<double> dts; size_t box; };
static void one(const Cfg& c)
{
	std::string w = cat("t0=", c.t0, " end=", c.max, " frames each ", c.dump, " checks each ", c.check, " dt=", c.dt, " clamp=", c.clamp, " stream=", c.stream, " visitors=", c.nv, " fail=", c.fail, " irregular=", c.dts.size()); CASE(w);
	nbody_data d; g_d = &d; size_t n = 2; if(c.box) d.make_universe(8, c.box, 1, 1); d.clear(); d.resize(n); for(size_t i = 0; i < n; ++i) { d.get_vertites()[i] = nbvertex_t(rnd(), rnd(), rnd()); d.get_velosites()[i] = nbvertex_t(rnd(0.5, 1), 1, 1); d.get_mass()[i] = 1; }
	d.set_check_list("P"); d.set_time(c.t0);
	Eng e; Sol s; s.e = &e; s.dts = c.dts; e.init(&d); s.set_engine(&e); s.set_time_step(c.dt / 8, c.dt); s.set_clamp_to_box(c.clamp);
	std::vector<std::shared_ptr<Vis>> vs; for(int i = 0; i < c.nv; ++i) { auto v = std::make_shared<Vis>(); v->id = i; vs.push_back(v); s.add_check_visitor(v); }
	Str st; st.fail_at = c.fail; g_log.clear();
	// data behind the state: only get_data or the statistics bring it up to date
	{ std::vector<double> b(e.problem_size()); e.read_buffer(b.data(), e.get_y()); b[0] = 100; e.write_buffer(e.get_y(), b.data()); }
	double P = 0; for(size_t i = 0; i < n; ++i) P += d.get_velosites()[i].x;
	int rc = s.run(&d, c.stream ? &st : nullptr, c.max, c.dump, c.check); std::vector<Ev> got = g_log;
	// the reference
	std::vector<Ev> want; double t = c.t0, x = 100, lc = t, ldp = t; long fr = 0; int wrc = 0; size_t k = 0, step = 0; bool rec = c.stream && c.dump > 0;
	auto write = [&]() -> bool { want.push_back({'w', t, step, x}); if(fr++ == c.fail) { wrc = -1; return false; } return true; };
	bool go = true; if(rec && t <= 0) go = write();
	while(go && t < c.max)
	{
		if(c.clamp) want.push_back({'c', double(d.get_box_size()), 0, 0});
		double q = c.dts.empty() ? c.dt : c.dts[k % c.dts.size()]; ++k; t += q; ++step; x += 1; want.push_back({'s', c.dt, k, x});
		if(c.check > 0 && t >= lc + c.check - c.dt * 0.1) { for(int i = 0; i < c.nv; ++i) want.push_back({'v', t, size_t(i), P}); lc = t; }
		if(rec && t >= ldp + c.dump - c.dt * 0.1) { go = write(); ldp = t; }
	}
	CHECK(rc == wrc, "result of the run", cat(w, " got ", rc, " want ", wrc));
	std::string g, h; for(auto& q : got) g += q.k; for(auto& q : want) h += q.k;
	if(!CHECK(g == h, "order of steps (s), wraps (c), frames (w) and visits (v)", cat(w, " got ", g.substr(0, 200), " want ", h.substr(0, 200)))) return;
	for(size_t i = 0; i < got.size(); ++i)
	{
		bool ok = got[i].k == 'v' ? got[i].t == want[i].t && got[i].n == want[i].n && near(got[i].x, want[i].x, 1, 1e-12L) : got[i].t == want[i].t && got[i].n == want[i].n && got[i].x == want[i].x;
		CHECK(ok, got[i].k == 'w' ? "a frame has the current state and time" : got[i].k == 'v' ? "a visitor sees fresh statistics" : got[i].k == 'c' ? "box of the wrap" : "step", cat(w, " event ", i, " ", got[i].k, " got ", got[i].t, " ", got[i].n, " ", got[i].x, " want ", want[i].t, " ", want[i].n, " ", want[i].x));
	}
	CHECK(d.get_time() == t && d.get_step() == step, "clock after the run", w);
	SAMPLE(w);
}
int main(int argc, char** argv)
{
	qInstallMessageHandler(quiet); Args a = args(argc, argv);
	double t0s[] = {0, -0.5, 0.7, 1e-9}; double ivs[] = {0, -1, 0.01, 0.1, 0.25, 0.3, 0.1001, 0.109, 0.111, 1};
	for(double t0 : t0s) for(double dmp : ivs) for(double chk : ivs) for(int cl = 0; cl < 2; ++cl) for(int st = 0; st < 2; ++st)
		one({t0, 2.05, dmp, chk, 0.1, cl != 0, st != 0, int(rndi(4)), -1, {}, dmp == chk ? 37u : 0u});
	for(double mx : {-1., 0., 0.1, 0.2, 0.3, 0.35}) for(double t0 : t0s) one({t0, mx, 0.1, 0.1, 0.1, false, true, 1, -1, {}, 0});
	for(long f = 0; f < 8; ++f) for(double t0 : t0s) for(double dmp : {0.1, 0.25, -1.}) one({t0, 2, dmp, 0.3, 0.1, f % 2 == 0, true, 2, f, {}, 0});
	int R = a.thorough ? 20000 : 600;
	for(int i = 0; i < R; ++i)
	{
		Cfg c = {rnd() < 0 ? 0. : rnd(-1, 2), rnd(0, 6), rnd(-0.1, 1), rnd(-0.1, 1), rnd(0.01, 0.3), rndi(2) == 0, rndi(4) != 0, int(rndi(5)), rndi(3) ? -1 : long(rndi(20)), {}, rndi(3) ? rndi(500) : 0};
		if(rndi(2)) { size_t m = 1 + rndi(6); for(size_t k = 0; k < m; ++k) c.dts.push_back(c.dt * rnd(0.3, 1.3)); }
		one(c);
	}
	return DONE();
}
