// Concrete companion of C18: options given on the command line against objects configured by hand.
#include "nbody_arg_parser.h"
#include "nbody_engines.h"
#include "nbody_solvers.h"
#include "nbody_data.h"
#include "common.h"
#include <memory>
typedef std::vector<std::pair<std::string, std::string>> Opts;
static std::string show(const Opts& o) { std::string s; for(auto& p : o) s += " --" + p.first + "=" + p.second; return s; }
static QVariantMap parse(const Opts& o)
{
	std::vector<std::string> a(1, "program"); for(auto& p : o) a.push_back("--" + p.first + "=" + p.second);
	std::vector<std::vector<char>> b; std::vector<char*> v; for(auto& s : a) { b.push_back(std::vector<char>(s.begin(), s.end())); b.back().push_back(0); } for(auto& x : b) v.push_back(x.data());
	return nbody_parse_arguments(int(v.size()), v.data());
}
static const std::string* find(const Opts& o, const std::string& k) { const std::string* r = 0; for(auto& p : o) if(p.first == k) r = &p.second; return r; }
static double num(const Opts& o, const std::string& k, double d) { const std::string* s = find(o, k); return s ? strtod(s->c_str(), 0) : d; }
static size_t cnt(const Opts& o, const std::string& k, size_t d) { const std::string* s = find(o, k); return s ? strtoull(s->c_str(), 0, 10) : d; }
static bool flag(const Opts& o, const std::string& k) { const std::string* s = find(o, k); return s && !(*s == "false" || *s == "0" || s->empty()); }
static std::string txt(const Opts& o, const std::string& k, const std::string& d) { const std::string* s = find(o, k); return s ? *s : d; }
static nbody_solver* common(nbody_solver* s, const Opts& o) { s->set_time_step(num(o, "min_step", 1e-9), num(o, "max_step", 1e-2)); s->set_clamp_to_box(flag(o, "clamp")); return s; }
template<class T> static nbody_solver* rk(const Opts& o)
{
	T* s = new T; s->set_error_threshold(num(o, "error_threshold", 1e-4)); s->set_max_recursion(cnt(o, "max_recursion", 8)); s->set_refine_steps_count(cnt(o, "refine_steps_count", 1));
	s->set_substep_subdivisions(cnt(o, "substep_subdivisions", 8)); s->set_correction(flag(o, "correction")); return s;
}
static nbody_solver* byhand(const Opts& o, const std::string& type)
{
	nbody_solver* s = 0;
	if(type == "adams") { Opts p; for(auto& x : o) if(x.first != "starter_solver" && x.first != "solver") p.push_back(x); s = new nbody_solver_adams(byhand(p, txt(o, "starter_solver", "euler")), cnt(o, "rank", 1), flag(o, "correction")); }
	else if(type == "bs") s = new nbody_solver_bulirsch_stoer(cnt(o, "max_level", 8), num(o, "error_threshold", 1e-11));
	else if(type == "euler") s = new nbody_solver_euler; else if(type == "midpoint") s = new nbody_solver_midpoint; else if(type == "midpoint-st") s = new nbody_solver_midpoint_stetter; else if(type == "rk4") s = new nbody_solver_rk4;
	else if(type == "rkck") s = rk<nbody_solver_rkck>(o); else if(type == "rkdp") s = rk<nbody_solver_rkdp>(o); else if(type == "rkdverk") s = rk<nbody_solver_rkdverk>(o); else if(type == "rkf") s = rk<nbody_solver_rkf>(o);
	else if(type == "rkfeagin10") s = rk<nbody_solver_rkfeagin10>(o); else if(type == "rkfeagin12") s = rk<nbody_solver_rkfeagin12>(o); else if(type == "rkfeagin14") s = rk<nbody_solver_rkfeagin14>(o);
	else if(type == "rkgl") s = rk<nbody_solver_rkgl>(o); else if(type == "rklc") s = rk<nbody_solver_rklc>(o);
	else if(type == "trapeze") { nbody_solver_trapeze* t = new nbody_solver_trapeze; t->set_refine_steps_count(cnt(o, "refine_steps_count", 1)); s = t; }
	return common(s, o);
}
static nbody_data g_data;
struct counting : public nbody_engine_simple   // a run that subdivides too often is cut off, for both solvers at the same evaluation
{
	size_t left = 260;
	void fcompute(const nbcoord_t& t, const memory* y, memory* r) override { if(left == 0) throw 1; --left; nbody_engine_simple::fcompute(t, y, r); }
};
static std::vector<double> go(std::unique_ptr<nbody_solver>& s, int steps)
{
	nbody_data d(g_data); counting e; e.init(&d); s->set_engine(&e); double t = s->get_max_step() * (steps - 0.5); try { s->run(&d, NULL, t, 0, 0); } catch(int) {} e.get_data(&d);
	std::vector<double> r; for(size_t i = 0; i < d.get_count(); ++i) for(const nbvertex_t& v : {d.get_vertites()[i], d.get_velosites()[i]}) { r.push_back(v.x); r.push_back(v.y); r.push_back(v.z); }
	r.push_back(d.get_time()); r.push_back(double(d.get_step())); s.reset(); return r;
}
static bool same(const std::vector<double>& a, const std::vector<double>& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) if(!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
static void solver(const Opts& o)
{
	std::string w = show(o); CASE(w); std::unique_ptr<nbody_solver> s(nbody_create_solver(parse(o))); if(!CHECK(s.get() != 0, "a solver is created", w)) return;
	std::unique_ptr<nbody_solver> h(byhand(o, txt(o, "solver", "")));
	CHECK(std::string(s->type_name()) == h->type_name() && typeid(*s) == typeid(*h), "kind of the solver", w); CHECK(s->get_min_step() == h->get_min_step() && s->get_max_step() == h->get_max_step(), "time steps of the solver", w);
	if(const nbody_solver_rk_butcher* a = dynamic_cast<const nbody_solver_rk_butcher*>(s.get())) { const nbody_solver_rk_butcher* b = dynamic_cast<const nbody_solver_rk_butcher*>(h.get()); CHECK(b && typeid(*a->table()) == typeid(*b->table()), "tableau of the solver", w); }
	CHECK(same(go(s, 7), go(h, 7)), "the solver is configured by the options", w); SAMPLE(w);
}
static const char* solvers[] = {"adams", "bs", "euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "trapeze"};
static Opts rndopts(const std::string& type, bool all)
{
	Opts o; o.push_back({"solver", type}); struct K { const char* k; std::vector<std::string> v; };
	K ks[] = {{"error_threshold", {"1e-7", "1e-3", "0.25", "1e-13"}}, {"max_recursion", {"0", "1", "2", "3"}}, {"refine_steps_count", {"0", "1", "2", "4"}}, {"substep_subdivisions", {"2", "3", "5"}}, {"correction", {"true", "false", "1", "0"}}, {"rank", {"1", "2", "3", "4", "5"}}, {"starter_solver", {"euler", "rk4", "midpoint", "rkck", "trapeze", "bs", "adams"}},
		{"max_level", {"1", "2", "3", "5", "12"}}, {"min_step", {"1e-3", "5e-3", "1e-5", "0"}}, {"max_step", {"0.01", "0.02", "0.05", "0.004"}}, {"clamp", {"true", "false", "1", "0"}}};
	for(auto& k : ks) if(all || rndi(3) == 0) { o.push_back({k.k, k.v[rndi(k.v.size())]}); }
	if(find(o, "max_recursion") == 0 && (type != "bs")) o.push_back({"max_recursion", "2"});
	for(size_t i = o.size() - 1; i > 0; --i) std::swap(o[i], o[rndi(i + 1)]); if(rndi(3) == 0) o.push_back({"engine", "simple"}); return o;
}
static void nothing()
{
	CASE("rejected options");
	for(const char* t : {"", "Euler", "rk5", "adams2", "stormer?", "rkfeagin8"}) { std::unique_ptr<nbody_solver> s(nbody_create_solver(parse({{"solver", t}}))); CHECK(!s, "an unknown solver is rejected", t); }
	{ std::unique_ptr<nbody_solver> s(nbody_create_solver(QVariantMap())); CHECK(!s, "no solver is rejected", ""); std::unique_ptr<nbody_engine> e(nbody_create_engine(QVariantMap())); CHECK(!e, "no engine is rejected", ""); }
	for(const char* r : {"0", "6", "-1", "100", "x"}) { std::unique_ptr<nbody_solver> s(nbody_create_solver(parse({{"solver", "adams"}, {"rank", r}}))); CHECK(!s, "a bad rank is rejected", r); }
	for(const char* r : {"", "eulr", "none"}) { std::unique_ptr<nbody_solver> s(nbody_create_solver(parse({{"solver", "adams"}, {"starter_solver", r}}))); CHECK(!s, "a bad starter is rejected", r); }
	for(const char* t : {"", "Simple", "simple_b", "bh", "openmp2", "cuda", "opencl", "opencl_bh"}) { std::unique_ptr<nbody_engine> e(nbody_create_engine(parse({{"engine", t}}))); CHECK(!e, "an unknown engine is rejected", t); }
	for(const char* t : {"", "Cycle", "nested", "tree"}) { std::unique_ptr<nbody_engine> e(nbody_create_engine(parse({{"engine", "simple_bh"}, {"traverse_type", t}}))); CHECK(!e, "an unknown traverse type is rejected", t); }
	for(const char* t : {"", "Heap", "stackless", "heap_stack", "cycle"}) { std::unique_ptr<nbody_engine> e(nbody_create_engine(parse({{"engine", "simple_bh"}, {"tree_layout", t}}))); CHECK(!e, "an unknown tree layout is rejected", t); }
}
static std::vector<double> forces(nbody_engine* e)
{
	nbody_data d(g_data); e->init(&d); size_t n = e->problem_size(); std::vector<double> y(n), r; e->read_buffer(y.data(), e->get_y()); nbody_engine::memory* f = e->create_buffer(n * sizeof(double));
	const size_t st[] = {0, 1, 2, 3, 4, 5, 6, 99, 100, 500, 999, 1000, 1001, 2000, (size_t(1) << 32), (size_t(1) << 32) + 1};
	for(size_t k = 0; k < 16; ++k) { d.set_step(st[k]); std::vector<double> b(n); e->write_buffer(e->get_y(), y.data()); e->fcompute(0, e->get_y(), f); e->read_buffer(b.data(), f); r.insert(r.end(), b.begin(), b.end()); for(size_t i = 0; i < n / 2; ++i) y[i] += 0.37 * std::sin(double(i * 7 + k)); }
	e->free_buffer(f); return r;
}
static void engine(const Opts& o, nbody_engine* hand)
{
	std::string w = show(o); CASE(w); std::unique_ptr<nbody_engine> h(hand), e(nbody_create_engine(parse(o))); if(!CHECK(e.get() != 0, "an engine is created", w)) return;
	CHECK(std::string(e->type_name()) == h->type_name() && typeid(*e) == typeid(*h), "kind of the engine", w); CHECK(same(forces(e.get()), forces(h.get())), "the engine is configured by the options", w); SAMPLE(w);
}
static void engines(int k)
{
	for(int q = 0; q < k; ++q)
	{
		Opts o; o.push_back({"engine", "ah"}); const char* rr[] = {"1", "2", "3", "1000"}; const char* dd[] = {"0.5", "2", "100", "0", "3.75", "9.9"}; const char* ff[] = {"1e-4", "0.1", "1", "1000"};
		if(rndi(3)) o.push_back({"full_recompute_rate", rr[rndi(4)]}); if(rndi(3)) o.push_back({"max_dist", dd[rndi(6)]}); if(rndi(3)) o.push_back({"min_force", ff[rndi(4)]});
		engine(o, new nbody_engine_ah(cnt(o, "full_recompute_rate", 1000), num(o, "max_dist", 10), num(o, "min_force", 1e-4)));
		Opts p; p.push_back({"engine", "simple_bh"}); const char* ra[] = {"0", "0.5", "1", "3", "10"}; const char* br[] = {"0", "1", "2", "3", "1000", "4294967297"}; const char* tt[] = {"cycle", "nested_tree"}; const char* tl[] = {"tree", "heap", "heap_stackless"};
		if(rndi(4)) p.push_back({"distance_to_node_radius_ratio", ra[rndi(5)]}); if(rndi(3)) p.push_back({"tree_build_rate", br[rndi(6)]}); if(rndi(3)) p.push_back({"traverse_type", tt[rndi(2)]}); if(rndi(4)) p.push_back({"tree_layout", tl[rndi(3)]});
		double ratio = num(p, "distance_to_node_radius_ratio", 10); size_t rate = cnt(p, "tree_build_rate", 0); e_traverse_type t = txt(p, "traverse_type", "cycle") == "cycle" ? ett_cycle : ett_nested_tree; std::string l = txt(p, "tree_layout", "tree");
		engine(p, l == "tree" ? static_cast<nbody_engine*>(new nbody_engine_simple_bh_tree(ratio, t, rate)) : l == "heap" ? static_cast<nbody_engine*>(new nbody_engine_simple_bh_heap(ratio, t, rate)) : static_cast<nbody_engine*>(new nbody_engine_simple_bh_heap_stackless(ratio, t, rate)));
	}
	engine({{"engine", "block"}}, new nbody_engine_block); engine({{"engine", "openmp"}}, new nbody_engine_openmp); engine({{"engine", "simple"}}, new nbody_engine_simple);
}
static void parser(int k)
{
	const char* pre[] = {"--", "", "-", "--", "--", "---"}; const char* key[] = {"a", "bb", "solver", "", "a", "x y", "max-step"}; const char* eq[] = {"=", "", "==", "=", "=", "="}; const char* val[] = {"", "1", "x=y", "-3", "a b", "\xc3\xa9", "--c=d"};
	for(int q = 0; q < k; ++q)
	{
		std::vector<std::string> a; QVariantMap want; size_t n = 1 + rndi(7); std::string w;
		for(size_t i = 0; i < n; ++i)
		{
			std::string s = std::string(pre[rndi(6)]) + key[rndi(7)] + eq[rndi(6)] + val[rndi(7)]; a.push_back(s); w += " <" + s + ">";
			if(i == 0 || s.compare(0, 2, "--") != 0) continue;
			std::string t = s.substr(2); size_t c = size_t(std::count(t.begin(), t.end(), '=')); if(c != 1) continue;
			want[QString::fromUtf8(t.substr(0, t.find('=')).c_str())] = QVariant(QString::fromUtf8(t.substr(t.find('=') + 1).c_str()));
		}
		std::vector<std::vector<char>> b; std::vector<char*> v; for(auto& s : a) { b.push_back(std::vector<char>(s.begin(), s.end())); b.back().push_back(0); } for(auto& x : b) v.push_back(x.data());
		CASE(cat("arguments", w)); CHECK(nbody_parse_arguments(int(n), v.data()) == want, "arguments", w);
	}
	CHECK(nbody_parse_arguments(0, NULL).isEmpty(), "no arguments", "");
}
int main(int argc, char** argv)
{
	Args a = args(argc, argv); int f = a.thorough ? 6 : 1; srand(7);
	for(int i = 0; i < 5; ++i) g_data.add_body(nbvertex_t(rnd() * 2, rnd() * 2, rnd() * 2), nbvertex_t(rnd() * 3, rnd() * 3, rnd() * 3), rnd(0.5, 3), nbcolor_t(1, 1, 1, 1), 0);
	{ nbody_data u; u.make_universe(5, 3, 3, 3); size_t n = std::min<size_t>(5, u.get_count()); for(size_t i = 0; i < n; ++i) { u.get_vertites()[i] = g_data.get_vertites()[i]; u.get_velosites()[i] = g_data.get_velosites()[i] * 40; u.get_mass()[i] = g_data.get_mass()[i]; } g_data = u; }
	if(a.group == "all" || a.group == "parser") parser(2000 * f);
	if(a.group == "all" || a.group == "engines") { nothing(); nbody_data u; for(int i = 0; i < 64; ++i) u.add_body(nbvertex_t(rnd() * 2, rnd() * 2, rnd() * 2), nbvertex_t(rnd(), rnd(), rnd()), rnd(0.5, 3), nbcolor_t(1, 1, 1, 1), 0); std::swap(u, g_data); engines(30 * f); for(size_t i = 0; i < 64; ++i) { g_data.get_vertites()[i] *= 6.0; g_data.get_mass()[i] *= 0.01; } engines(30 * f); std::swap(u, g_data); }
	if(a.group == "all" || a.group == "solvers") { solver({{"solver", "adams"}, {"starter_solver", "adams"}, {"rank", "3"}, {"max_step", "0.02"}});
		for(const char* s : solvers) { solver({{"solver", s}}); for(int k = 0; k < 10 * f; ++k) solver(rndopts(s, k % 3 == 0)); } }
	return DONE();
}
