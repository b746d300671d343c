#include "nbody_data.h"
#include "common.h"
struct B { nbvertex_t r, v; double m, rad; nbcolor_t c; };
static bool same(const nbvertex_t& a, const nbvertex_t& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
static bool samec(const nbcolor_t& a, const nbcolor_t& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
static B rb() { B b; b.r = nbvertex_t(rnd() * 9, rnd() * 9, rnd() * 9); b.v = nbvertex_t(rnd(), rnd(), rnd()); b.m = rnd(0.1, 4); b.rad = rnd(0, 2); b.c = nbcolor_t(float(rnd(0, 1)), float(rnd(0, 1)), float(rnd(0, 1)), float(rnd(0, 1))); return b; }
static void put(nbody_data& d, const B& b) { d.add_body(b.r, b.v, b.m, b.c, b.rad); }
static void match(const nbody_data& d, const std::vector<B>& s, double t, size_t step, const std::string& w)
{
	if(!CHECK(d.get_count() == s.size(), "body count", cat(w, " got ", d.get_count(), " want ", s.size()))) return;
	CHECK(d.get_time() == t, "time", w); CHECK(d.get_step() == step, "step", w);
	for(size_t i = 0; i < s.size(); ++i)
	{
		CHECK(same(d.get_vertites()[i], s[i].r), "position of a body", cat(w, " body ", i)); CHECK(same(d.get_velosites()[i], s[i].v), "velocity of a body", cat(w, " body ", i));
		CHECK(d.get_mass()[i] == s[i].m, "mass of a body", cat(w, " body ", i)); CHECK(samec(d.get_color()[i], s[i].c), "color of a body", cat(w, " body ", i));
	}
	// the radius is visible through comparison only
	nbody_data o; for(auto& b : s) put(o, b); CHECK(d.is_equal(o) && o.is_equal(d), "equal to a container with the same bodies", w);
}
static void history(int len, int k)
{
	nbody_data d; std::vector<B> s; double t = 0; size_t step = 0; std::string w = cat("history ", k); CASE(w); match(d, s, t, step, w + " new");
	for(int q = 0; q < len; ++q)
	{
		std::string op;
		switch(rndi(9))
		{
		case 0: case 1: case 2: case 3: { B b = rb(); if(rndi(3) == 0) { b.rad = 0; d.add_body(b.r, b.v, b.m, b.c); } else put(d, b); s.push_back(b); op = "add"; break; }
		case 4: { size_t n = s.empty() ? rndi(3) : s.size() / 2 + rndi(s.size() + 2); CHECK(d.resize(n), "resize succeeds", w); B z; z.m = z.rad = 0; z.r = z.v = nbvertex_t(); z.c = nbcolor_t(); size_t old = s.size(); s.resize(n, z);
			for(size_t i = old; i < n; ++i) { s[i] = rb(); s[i].rad = 0; d.get_vertites()[i] = s[i].r; d.get_velosites()[i] = s[i].v; d.get_mass()[i] = s[i].m; d.get_color()[i] = s[i].c; } op = "resize"; break; }
		case 5: if(rndi(4) == 0) { d.clear(); s.clear(); } op = "clear"; break;
		case 6: { double x = rnd(); d.advise_time(x); t += x; ++step; op = "advise_time"; break; }
		case 7: t = rnd() * 5; d.set_time(t); op = "set_time"; break;
		default: step = rndi(100000); d.set_step(step); op = "set_step";
		}
		match(d, s, t, step, cat(w, " operation ", q, " ", op));
	}
	SAMPLE(w);
}
static void compare(size_t n)
{
	std::vector<B> s; for(size_t i = 0; i < n; ++i) s.push_back(rb());
	for(size_t i = 0; i < n; ++i) for(int f = 0; f < 8; ++f) for(int sg = -1; sg <= 1; sg += 2) for(double eps : {0., 1e-12, 0.125})
	{
		for(double delta : {0., 0.0625, 0.125, 0.1875, 1e-13, 1e-9})
		{
			std::vector<B> o = s; double* p[] = {&o[i].r.x, &o[i].r.y, &o[i].r.z, &o[i].v.x, &o[i].v.y, &o[i].v.z, &o[i].m, &o[i].rad}; double was = *p[f]; *p[f] = was + sg * delta; double real = std::fabs(*p[f] - was);
			nbody_data a, b; for(auto& x : s) put(a, x); for(auto& x : o) put(b, x); std::string w = cat("n=", n, " body ", i, " field ", f, " difference ", real, " eps ", eps);
			CHECK(a.is_equal(b, eps) == !(real > eps) && b.is_equal(a, eps) == !(real > eps), "comparison", w);
		}
	}
	nbody_data a, b; for(size_t i = 0; i < n; ++i) { put(a, s[i]); if(i + 1 < n) put(b, s[i]); }
	CHECK(!a.is_equal(b, 1e9) && !b.is_equal(a, 1e9), "containers of different size differ", cat("n=", n));
	// colors, time and step do not count
	nbody_data c; for(auto x : s) { x.c = nbcolor_t(9, 9, 9, 9); put(c, x); } c.set_time(3); c.set_step(4); CHECK(a.is_equal(c), "comparison is of the bodies", cat("n=", n));
}
static void universe(size_t stars, double sx, double sy, double sz)
{
	std::string w = cat("stars=", stars, " box ", sx, " ", sy, " ", sz); CASE(w);
	nbody_data d; put(d, rb()); d.make_universe(stars, sx, sy, sz);
	size_t per = (stars + 63) / 64 * 64; ld mass = 0; if(!CHECK(d.get_count() == 2 * per, "two galaxies of whole blocks", cat(w, " got ", d.get_count()))) return;
	ld P[3] = {0, 0, 0};
	for(size_t i = 0; i < 2 * per; ++i)
	{
		size_t g = i / per; const nbvertex_t& c = d.get_vertites()[g * per]; const nbvertex_t& cv = d.get_velosites()[g * per]; const nbvertex_t& r = d.get_vertites()[i]; const nbvertex_t& v = d.get_velosites()[i]; double m = d.get_mass()[i];
		mass += m; P[0] += ld(m) * v.x; P[1] += ld(m) * v.y; P[2] += ld(m) * v.z; CHECK(m > 0, "positive mass", cat(w, " body ", i));
		if(i % per == 0) { CHECK(near(r.x, g ? sx : 0, sx, 1e-12L) && near(r.y, sy / 2, sy, 1e-12L) && near(r.z, sz / 2, sz, 1e-12L), "galaxy center", w); CHECK(near(m, 999, 999, 1e-12L), "central mass", w); CHECK(g == 0 || (v.x == -d.get_velosites()[0].x && v.y == -d.get_velosites()[0].y), "galaxies move oppositely", w); continue; }
		nbvertex_t q = r - c, u = v - cv; CHECK(q.length() <= sx / 2 * (1 + 1e-12), "star inside its galaxy", cat(w, " body ", i));
		CHECK(near(q * u, 0, q.length() * u.length() + 1e-300L, 1e-9L), "stars move across their radius", cat(w, " body ", i));
		CHECK(near(m, 1.0 / (per - 1), 1, 1e-12L), "equal star masses", cat(w, " body ", i)); CHECK(std::isfinite(u.length()) && u.length() > 0, "star velocity", cat(w, " body ", i));
		// circular orbit around the mass inside its radius (in the plane z is compressed after the radius was drawn)
		ld ql = q.length(), rl = sqrtl(ld(q.x) * q.x + ld(q.y) * q.y + ld(q.z) / 0.3L * (ld(q.z) / 0.3L)); ld me = powl(rl / (sx / 2), 3) * (1000 - 999) + 999, r2 = std::max(ql * ql, (ld)1e-8); ld want = sqrtl(me * ql / (r2 * sqrtl(r2)) * ql);
		CHECK(near(u.length(), want, want, 1e-9L), "circular orbit", cat(w, " body ", i, " got ", u.length(), " want ", double(want)));
	}
	CHECK(near(mass, 2000, 2000, 1e-11L), "total mass", cat(w, " got ", double(mass)));
	CHECK(d.get_box_size() == size_t(std::max(std::max(1., sx), std::max(sy, sz))), "box size", cat(w, " got ", d.get_box_size())); SAMPLE(w);
}
int main(int argc, char** argv)
{
	Args A = args(argc, argv);
	for(int k = 0; k < (A.thorough ? 400 : 60); ++k) history(A.thorough ? 200 : 60, k);
	for(size_t n : {1, 2, 3, 7, 16}) compare(n);
	for(size_t s : {1, 2, 63, 64, 65, 127, 128, 200}) { universe(s, 100, 100, 100); universe(s, 50, 700, 30); universe(s, 3, 2, 9.5); universe(s, 0.5, 0.5, 0.25); }
	return DONE();
}
