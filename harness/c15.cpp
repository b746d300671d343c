#include "nbody_data.h"
#include "common.h"
#include <fstream>
static std::string g_dir;
struct B { double x[6], m, rad; };
static std::string file(const std::string& n) { return g_dir + "/" + n; }
static void put(const std::string& n, const std::string& t) { std::ofstream o(file(n).c_str(), std::ios::binary); o << t; }
static double wide() { switch(rndi(6)) { case 0: return 0; case 1: return std::floor(rnd(-50, 50)); case 2: return rnd() * std::pow(10., rnd(-300, 300)); case 3: return rnd() * std::pow(10., rnd(-12, 12)); case 4: return rnd() * 1e-310; default: return rnd(); } }
static std::string tok(double& v)
{
	char b[64]; const char* f[] = {"%.17g", "%.16e", "%+.16E", "%g", "%.3f", "%+.17g"}; double a = std::fabs(v); int k = int(rndi(6)); if(k == 4 && a > 1e15) k = 0;
	snprintf(b, sizeof(b), f[k], v); v = strtod(b, 0); return b;
}
static std::string gap() { return std::string(1 + rndi(4), ' '); }
static bool bits(double a, double b) { return a == b; }
static void match(const nbody_data& d, const std::vector<B>& s, double factor, const std::string& w)
{
	if(!CHECK(d.get_count() == s.size(), "number of bodies", cat(w, " got ", d.get_count(), " want ", s.size()))) return;
	nbody_data o;
	for(size_t i = 0; i < s.size(); ++i)
	{
		const nbvertex_t r = d.get_vertites()[i], v = d.get_velosites()[i]; const B& b = s[i]; std::string u = cat(w, " body ", i);
		CHECK(bits(r.x, b.x[0]) && bits(r.y, b.x[1]) && bits(r.z, b.x[2]), "position", u); CHECK(bits(v.x, b.x[3]) && bits(v.y, b.x[4]) && bits(v.z, b.x[5]), "velocity", u);
		CHECK(bits(d.get_mass()[i], b.m * factor), "mass", cat(u, " got ", d.get_mass()[i], " want ", b.m * factor));
		const nbcolor_t c = d.get_color()[i]; CHECK(c.x == 1 && c.y == 1 && c.z == 1 && c.w == 1, "color is white", u);
		o.add_body(nbvertex_t(b.x[0], b.x[1], b.x[2]), nbvertex_t(b.x[3], b.x[4], b.x[5]), b.m * factor, nbcolor_t(), b.rad);
	}
	CHECK(d.is_equal(o, 0) && o.is_equal(d, 0), "radius", w);
}
static std::string lines(std::vector<B>& s, size_t n, int bad, bool plain)
{
	std::string t; const char* junk[] = {"x1", "1,5", "--2", "1e", "0x1p3", "1.2.3"};
	size_t badat = n ? rndi(n) : 0; int badcol = bad ? int(rndi(8)) : -1;
	for(size_t i = 0; i < n; ++i)
	{
		while(!plain && rndi(4) == 0) { const char* e[] = {"\n", "// comment 1 2 3 4 5 6 7\n", "   \n", "\t\n", "  // 1\n", "//\n", "\r\n"}; t += e[rndi(7)]; }
		B b; b.rad = 0; double v[8]; int cols = plain ? 8 : 7 + int(rndi(2)); std::vector<std::string> c;
		for(int q = 0; q < cols; ++q) { v[q] = q >= 6 ? std::fabs(wide()) : wide(); if(q == 6) v[q] = rnd(0, 1) * std::pow(10., rnd(-20, 30)); c.push_back(tok(v[q])); }
		for(int q = 0; q < 6; ++q) b.x[q] = v[q];
		b.m = v[6]; if(cols > 7) b.rad = v[7];
		if(bad && i == badat) { if(bad == 1) c.resize(badcol < 7 ? badcol ? badcol : 6 : 6); else { if(badcol == 7 && cols == 7) c.push_back("0"); c[badcol] = junk[rndi(6)]; } }
		std::string l = plain ? "" : std::string(rndi(3), ' ');
		for(size_t q = 0; q < c.size(); ++q) l += (q ? gap() : std::string()) + c[q];
		if(!plain && !bad && cols == 8 && rndi(3) == 0) l += gap() + "name 42";
		if(!plain && rndi(4) == 0) l += rndi(2) ? " // remark 3 4" : "//x";
		if(!plain && rndi(5) == 0) l += " \t";
		if(!plain && rndi(6) == 0) l += "\r";
		t += l + (i + 1 == n && rndi(3) == 0 ? "" : "\n"); s.push_back(b);
	}
	return t;
}
static const char* types[] = {"G1", "SI", "ADK", "g1", "si", "Adk", "adk"};
static double factor(int k) { const double G = 6.674e-11; switch(k % 3) { case 0: return 1; case 1: return G; default: return G * 86400. * 86400. / (149597870700. * 149597870700. * 149597870700.); } }
static size_t box(const std::vector<B>& s) { double m = 1; for(auto& b : s) for(int q = 0; q < 3; ++q) m = std::max(m, b.x[q]); return size_t(m); }
static bool fits(const std::vector<B>& s) { for(auto& b : s) for(int q = 0; q < 3; ++q) if(b.x[q] > 1e18) return false; return true; }
static double real_factor(e_units_type t)
{
	put("unit", "1 2 3 4 5 6 1\n"); nbody_data d; CHECK(d.load(QString::fromStdString(file("unit")), t) && d.get_count() == 1, "load", "one body"); return d.get_count() == 1 ? d.get_mass()[0] : 0;
}
static void text(size_t n, int bad, int k)
{
	std::vector<B> s; std::string t = lines(s, n, bad, false); put("a.txt", t); std::string w = cat("n=", n, " bad=", bad, " file ", k, n < 3 ? " text <" + t + ">" : std::string()); CASE(w);
	nbody_data d; if(rndi(2)) d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(4, 5, 6), 7, nbcolor_t(), 8);
	const e_units_type u[] = {eut_G1, eut_SI, eut_au_day_kg}; int q = int(rndi(3)); bool ok = d.load(QString::fromStdString(file("a.txt")), u[q]);
	if(bad && n) { CHECK(!ok, "a malformed file is rejected", w); return; }
	if(CHECK(ok, "load", w)) match(d, s, q == 0 ? 1 : real_factor(u[q]), w);
	if(fits(s))
	{
		int p = int(rndi(7)); nbody_data e; w = cat(w, " type ", types[p]); const int un[] = {0, 1, 2, 0, 1, 2, 2};
		if(CHECK(e.load_initial(QString::fromStdString(file("a.txt")), types[p]), "load_initial", w)) { match(e, s, un[p] == 0 ? 1 : real_factor(u[un[p]]), w); CHECK(e.get_box_size() == nbcoord_t(box(s)), "box size", cat(w, " got ", e.get_box_size(), " want ", box(s))); }
	}
	SAMPLE(w);
}
static void units()
{
	const e_units_type u[] = {eut_G1, eut_SI, eut_au_day_kg}; CASE("units");
	for(int q = 0; q < 3; ++q) { double f = real_factor(u[q]); CHECK(std::fabs(f / factor(q) - 1) < (q ? 5e-4 : 1e-300), "mass unit", cat("unit ", q, " factor ", f)); }
	double r = real_factor(eut_au_day_kg) / real_factor(eut_SI); CHECK(std::fabs(r / (factor(2) / factor(1)) - 1) < 1e-12, "ratio of the mass units", S(r));
	nbody_data d; d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(4, 5, 6), 7, nbcolor_t(), 8); nbody_data c(d);
	for(const char* t : {"", "G2", "Zen", "S I", "ADKX", "zeno2"}) CHECK(!d.load_initial(QString::fromStdString(file("unit")), t) && d.is_equal(c, 0), "an unknown type is rejected", t);
	for(const char* t : {"G1", "SI", "ADK", "Zeno"}) CHECK(!d.load_initial(QString::fromStdString(file("nothere")), t) && d.is_equal(c, 0), "a missing file is rejected", t);
	CHECK(!d.load(QString::fromStdString(file("nothere"))) && d.is_equal(c, 0), "a missing file is rejected", "load"); CHECK(!d.load_zeno_ascii(QString::fromStdString(file("nothere"))) && d.is_equal(c, 0), "a missing file is rejected", "zeno");
}
static void zeno(size_t n, int bad, int k)
{
	std::vector<B> s(n); std::vector<std::string> l; std::string num[] = {"x", "1.5.", "", "1e+"};
	l.push_back(S(n)); l.push_back("3"); l.push_back("0.5");
	for(auto& b : s) { b.m = std::fabs(wide()); b.rad = 0; l.push_back((rndi(2) ? " " : "") + tok(b.m)); }
	for(int h = 0; h < 2; ++h) for(auto& b : s) { std::string t = rndi(2) ? " " : ""; for(int q = 0; q < 3; ++q) { b.x[3 * h + q] = wide(); t += (q ? gap() : std::string()) + tok(b.x[3 * h + q]); } l.push_back(t); }
	std::string w = cat("zeno n=", n, " bad=", bad, " file ", k); size_t cutat = 0; CASE(w);
	if(bad == 1) l[1] = rndi(2) ? "2" : "4"; else if(bad == 2) l[0] = num[rndi(4)]; else if(bad == 3) l[1] = num[rndi(4)]; else if(bad == 4) l[2] = "";
	else if(bad == 5) { cutat = n ? rndi(3 * n) + 3 : 2; l.resize(cutat); if(n == 0) return; }
	else if(bad == 6) { if(!n) return; l[3 + n + rndi(2 * n)] += " 1"; }
	else if(bad == 7) { if(!n) return; l[3 + n + rndi(2 * n)] = "1 2"; }
	else if(bad == 8) { if(!n) return; l[3 + rndi(n)] = num[rndi(2)]; }
	else if(bad == 9) { if(!n) return; std::string& t = l[3 + n + rndi(2 * n)]; int p = int(rndi(3)); t = p == 0 ? "z 1 2" : p == 1 ? "1 z 2" : "1 2 z"; }
	std::string t; for(size_t i = 0; i < l.size(); ++i) t += l[i] + (i + 1 == l.size() && rndi(2) && bad != 5 ? "" : "\n");
	if(!bad && rndi(3) == 0) t += t[t.size() - 1] == '\n' ? "1 2 3\n" : "\n1 2 3\n";
	put("z.txt", t); nbody_data d; d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(4, 5, 6), 7, nbcolor_t(), 8); QString fn = QString::fromStdString(file("z.txt"));
	bool ok = d.load_zeno_ascii(fn);
	if(bad) { CHECK(!ok, "a malformed file is rejected", cat(w, n < 2 ? " text <" + t + ">" : std::string())); nbody_data e; CHECK(!e.load_initial(fn, "Zeno"), "a malformed file is rejected", w); return; }
	if(CHECK(ok, "load zeno", w)) match(d, s, 1, w);
	if(fits(s)) { nbody_data e; if(CHECK(e.load_initial(fn, rndi(2) ? "zeno" : "ZENO"), "load_initial zeno", w)) { match(e, s, 1, w); CHECK(e.get_box_size() == nbcoord_t(box(s)), "box size", w); } }
	SAMPLE(w);
}
static void save(size_t n, int k)
{
	std::vector<B> s(n); nbody_data d; std::string w = cat("save n=", n, " ", k); CASE(w);
	for(auto& b : s) { for(int q = 0; q < 6; ++q) b.x[q] = wide(); b.m = wide(); b.rad = wide(); d.add_body(nbvertex_t(b.x[0], b.x[1], b.x[2]), nbvertex_t(b.x[3], b.x[4], b.x[5]), b.m, nbcolor_t(float(rnd()), 0, 0, 0), b.rad); }
	put("s.txt", std::string(rndi(2) ? 100000 : 3, '7')); QString fn = QString::fromStdString(file("s.txt")); nbody_data c(d);
	if(!CHECK(d.save(fn), "save", w)) return;
	CHECK(d.is_equal(c, 0), "saving changes nothing", w); nbody_data e; if(CHECK(e.load(fn), "load what was saved", w)) match(e, s, 1, w);
	CHECK(!d.save(QString::fromStdString(file("no/such/dir"))), "saving to a bad path fails", w); if(n) CHECK(!d.save("/dev/full"), "saving to a full disk fails", w);
	SAMPLE(w);
}
int main(int argc, char** argv)
{
	Args a = args(argc, argv); g_dir = a.dir; int f = a.thorough ? 10 : 1;
	if(a.group == "all" || a.group == "text") { units(); for(int k = 0; k < 120 * f; ++k) { text(rndi(12), 0, k); text(1 + rndi(6), 1, k); text(1 + rndi(6), 2, k); } text(1500, 0, 0); }
	if(a.group == "all" || a.group == "zeno") { for(int k = 0; k < 40 * f; ++k) for(int b = 0; b < 10; ++b) zeno(rndi(9), b, k); zeno(1500, 0, 0); }
	if(a.group == "all" || a.group == "save") { for(int k = 0; k < 100 * f; ++k) save(rndi(12), k); save(2000, 0); }
	return DONE();
}
