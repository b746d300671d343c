#include "nbody_data.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "common.h"
#include <QDebug>
#include <QDir>
#include <QFile>
#include <QString>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
#include <functional>
static void quiet(QtMsgType, const QMessageLogContext&, const QString&) {}
// every write system call of the process passes here: faults are injected and the files looked at in between
static long g_calls = -1, g_fail_from = -1; static std::function<void()> g_after;
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
	if(fd > 2 && g_calls >= 0)
	{
		long k = g_calls++;
		if(g_fail_from >= 0 && k >= g_fail_from) { errno = ENOSPC; return -1; }
		ssize_t r = syscall(SYS_write, fd, p, n);
		if(g_after) { std::function<void()> f = g_after; g_after = nullptr; f(); g_after = f; }
		return r;
	}
	return syscall(SYS_write, fd, p, n);
}
static std::string slurp(const std::string& f) { std::string s; FILE* h = fopen(f.c_str(), "rb"); if(!h) return s; char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static bool exists(const std::string& f) { return access(f.c_str(), F_OK) == 0; }
static void spit(const std::string& f, const std::string& t) { FILE* h = fopen(f.c_str(), "wb"); if(h) { fwrite(t.data(), 1, t.size(), h); fclose(h); } }
static std::vector<std::string> cut(const std::string& s, char c) { std::vector<std::string> v(1); for(char q : s) if(q == c) v.push_back(""); else v.back() += q; return v; }
struct Frame { size_t step; double time; std::string raw; size_t part; long pos; };
struct Rec { std::string base, col, mass; size_t n, box; std::vector<Frame> fr; size_t part; long pos; bool header; };
static void setb(nbody_data& d, size_t n, size_t box) { d.make_universe(2, double(box), 1, 1); d.clear(); d.resize(n); for(size_t i = 0; i < n; ++i) { d.get_mass()[i] = rnd(0.1, 9); d.get_color()[i] = nbcolor_t(float(rnd()), float(rnd()), float(rnd()), float(rnd())); } }
static void move(nbody_data& d) { for(size_t i = 0; i < d.get_count(); ++i) { d.get_vertites()[i] = nbvertex_t(rnd() * 1e5, rnd(), rnd() * 1e-9); d.get_velosites()[i] = nbvertex_t(rnd(), -rnd() * 1e9, rnd()); } }
static std::string raw(const nbody_data& d) { size_t b = 24 * d.get_count(); return std::string((const char*)d.get_vertites(), b) + std::string((const char*)d.get_velosites(), b); }
static double tm(size_t k) { double b[] = {0, 1e-3, 0.1, 1, 12345.6789, 1e7, 3e-9}; return b[rndi(7)] + double(k) * rnd(1e-4, 1); }
struct Line { size_t step; double time; size_t part; long pos; };
static bool lines(const std::string& idx, std::vector<Line>& v, std::vector<std::string>& head)
{
	v.clear(); head.clear(); size_t e = idx.rfind('\n'); if(e == std::string::npos) return idx.empty();
	for(auto& l : cut(idx.substr(0, e), '\n'))
	{
		if(!l.empty() && l[0] == '#') { head.push_back(l); continue; }
		auto p = cut(l, '\t'); if(p.size() != 4) return false; char* q; Line x; x.step = strtoull(p[0].c_str(), &q, 10); if(*q || p[0].empty()) return false; x.time = strtod(p[1].c_str(), &q); if(*q || p[1].empty()) return false; x.part = strtoull(p[2].c_str(), &q, 10); if(*q || p[2].empty()) return false; x.pos = strtol(p[3].c_str(), &q, 10); if(*q || p[3].empty()) return false;
		v.push_back(x);
	}
	return true;
}
static bool part_has(const Rec& r, const Line& l, const std::string& want) { std::string s = slurp(r.base + S(l.part) + ".dat"); return l.pos >= 0 && size_t(l.pos) + want.size() <= s.size() && s.compare(size_t(l.pos), want.size(), want) == 0; }
// the recording on disk against what was written
static void on_disk(const Rec& r, const std::string& w, bool whole = true)
{
	std::vector<Line> v; std::vector<std::string> head; std::string idx = slurp(r.base + ".idx");
	if(!CHECK(lines(idx, v, head), "index is well formed", w)) return;
	CHECK(idx.empty() || idx.back() == '\n', "index lines are complete", w);
	if(!r.fr.empty() || r.header) { std::vector<std::string> h = {"#coord_size 8", cat("#body_count ", r.n), cat("#box_size ", r.box)}; CHECK(head == h, "header of the index", w); CHECK(slurp(r.base + ".col") == r.col, "color file", w); CHECK(slurp(r.base + ".mass") == r.mass, "mass file", w); }
	if(!CHECK(v.size() == r.fr.size(), "every frame is listed once", cat(w, " listed ", v.size(), " written ", r.fr.size()))) return;
	for(size_t i = 0; i < v.size(); ++i)
	{
		CHECK(v[i].step == r.fr[i].step && near(v[i].time, r.fr[i].time, fabsl(r.fr[i].time), 6e-15L), "step and time in the index", cat(w, " frame ", i, " ", v[i].step, " ", v[i].time, " want ", r.fr[i].step, " ", r.fr[i].time));
		CHECK(part_has(r, v[i], r.fr[i].raw), "frame data at the listed place", cat(w, " frame ", i));
		CHECK(v[i].part == r.fr[i].part, "part of the frame", cat(w, " frame ", i, " part ", v[i].part, " want ", r.fr[i].part)); CHECK(v[i].pos == r.fr[i].pos, "position of the frame", cat(w, " frame ", i));
	}
}
static void read_back(const Rec& r, const std::string& w)
{
	nbody_data_stream_reader rd; if(!CHECK(rd.load(QString::fromStdString(r.base)) == 0, "a recording loads", w)) return;
	CHECK(rd.get_frame_count() == r.fr.size() && rd.get_body_count() == r.n && rd.get_box_size() == double(r.box) && rd.get_coord_size() == 8, "counts of the recording", w);
	CHECK(rd.get_steps_count() == r.fr.back().step && near(rd.get_max_time(), r.fr.back().time, fabsl(r.fr.back().time), 6e-15L) && rd.get_last_file_n() == r.fr.back().part, "last frame of the recording", w);
	nbody_data d; d.resize(r.n);
	for(size_t i = 0; i < r.fr.size(); ++i)
	{
		CHECK(rd.get_current_frame() == i, "current frame", cat(w, " frame ", i));
		if(!CHECK(rd.read(&d) == 0, "every frame is readable in order", cat(w, " frame ", i))) return;
		CHECK(raw(d) == r.fr[i].raw && d.get_step() == r.fr[i].step && near(d.get_time(), r.fr[i].time, fabsl(r.fr[i].time), 6e-15L), "a frame comes back as written", cat(w, " frame ", i));
		CHECK(std::string((const char*)d.get_mass(), 8 * r.n) == r.mass && std::string((const char*)d.get_color(), 16 * r.n) == r.col, "masses and colors come back", cat(w, " frame ", i));
	}
	CHECK(rd.read(&d) != 0, "nothing after the last frame", w);
}
static int put(nbody_data_stream& s, Rec& r, nbody_data& d, long max, bool count = true)
{
	move(d); d.set_time(tm(r.fr.size())); d.set_step(rndi(1u << 30)); bool big = rndi(5) == 0; if(big) d.set_step(d.get_step() * 4000000000ull);
	Frame f; f.step = d.get_step(); f.time = d.get_time(); f.raw = raw(d);
	long pos = r.pos; size_t part = r.part; if(max > 0 && pos >= max) { ++part; pos = 0; }
	int rc = s.write(&d); if(rc == 0 || count) { r.part = part; f.part = part; f.pos = pos; r.pos = pos + long(f.raw.size()); r.fr.push_back(f); }
	return rc;
}
static std::string g_dir; static long g_no;
static Rec fresh(size_t n, size_t box, const nbody_data& d) { Rec r; r.base = cat(g_dir, "/r", ++g_no, "/s"); r.n = n; r.box = box; r.part = 0; r.pos = 0; r.header = false; r.mass.assign((const char*)d.get_mass(), 8 * n); r.col.assign((const char*)d.get_color(), 16 * n); return r; }
static QString Q(const std::string& s) { return QString::fromStdString(s); }
// ---- recording: histories of open, write, close, append
static void record(size_t n, long max, int frames, int appends, const char* what)
{
	std::string w = cat(what, " n=", n, " part size=", max, " frames=", frames, " appended=", appends); CASE(w);
	size_t box = 1 + rndi(2000); nbody_data d; setb(d, n, box); Rec r = fresh(n, box, d); nbody_data_stream s;
	if(!CHECK(s.open(Q(r.base), max) == 0, "open", w)) return;
	// at any moment every listed frame is completely there
	g_calls = 0; g_fail_from = -1; nbody_data* pd = &d; Rec* pr = &r;
	g_after = [pd, pr, w]() { std::vector<Line> v; std::vector<std::string> h; lines(slurp(pr->base + ".idx"), v, h); size_t k = pr->fr.size(); for(size_t i = 0; i < v.size() && i <= k; ++i) CHECK(part_has(*pr, v[i], i < k ? pr->fr[i].raw : raw(*pd)), "a frame is listed only when its data are there", cat(w, " frame ", i)); };
	for(int i = 0; i < frames; ++i) { if(!CHECK(put(s, r, d, max) == 0, "write", cat(w, " frame ", i))) { g_after = nullptr; g_calls = -1; return; } if(rndi(3) == 0) on_disk(r, cat(w, " after frame ", i)); }
	s.close(); on_disk(r, w); read_back(r, w);
	for(int a = 0; a < appends; ++a)
	{
		std::string w2 = cat(w, " append ", a); nbody_data_stream_reader rd; if(!CHECK(rd.load(Q(r.base)) == 0, "load to append", w2)) break;
		nbody_data_stream* t = rndi(2) ? &s : new nbody_data_stream; if(!CHECK(t->open(Q(r.base), max, &rd) == 0, "open to append", w2)) break; rd.close();
		int m = int(rndi(5)); for(int i = 0; i < m; ++i) CHECK(put(*t, r, d, max) == 0, "write after append", w2);
		t->close(); on_disk(r, w2); read_back(r, w2); if(t != &s) delete t;
	}
	g_after = nullptr; g_calls = -1; SAMPLE(w);
}
static void reuse()
{
	// one object, several recordings
	nbody_data_stream s;
	for(int k = 0; k < 6; ++k)
	{
		size_t n = 1 + rndi(9); std::string w = cat("recording ", k, " of one stream object, n=", n, k % 2 ? ", not closed" : ""); CASE(w); nbody_data d; setb(d, n, 7 + k); Rec r = fresh(n, 7 + k, d); long max = k % 3 ? long(rndi(2000)) : -1;
		if(!CHECK(s.open(Q(r.base), max) == 0, "open", w)) return; for(int i = 0; i < 4; ++i) CHECK(put(s, r, d, max) == 0, "write", w); if(k % 2 == 0) s.close(); on_disk(r, w); read_back(r, w);
	}
	// overwriting an existing recording
	nbody_data d; setb(d, 5, 3); Rec r = fresh(5, 3, d); for(int k = 0; k < 2; ++k) { nbody_data_stream q; std::string w = cat("overwriting ", k); CASE(w); Rec t = r; if(!CHECK(q.open(Q(t.base), 300) == 0, "open", w)) return; for(int i = 0; i < 5 - 3 * k; ++i) CHECK(put(q, t, d, 300) == 0, "write", w); q.close(); on_disk(t, w); read_back(t, w); }
	// misuse
	{ CASE("misuse"); nbody_data_stream q; CHECK(q.write(nullptr) != 0 && q.write(&d) != 0, "writing to a stream that is not open", "never opened"); Rec t = fresh(5, 3, d); q.open(Q(t.base), 1000); CHECK(q.write(nullptr) != 0, "writing nothing", ""); put(q, t, d, 1000); on_disk(t, "misuse"); q.close(); CHECK(q.write(&d) != 0, "writing to a closed stream", ""); on_disk(t, "misuse, closed"); }
}
static void faults(size_t n, long max, int frames)
{
	// the k-th and all later system calls fail
	for(long k = 0; k < 400; ++k)
	{
		std::string w = cat("disk full at write call ", k, " n=", n, " part size=", max, " frames=", frames); CASE(w);
		nbody_data d; setb(d, n, 5); Rec r = fresh(n, 5, d); nbody_data_stream s; if(!CHECK(s.open(Q(r.base), max) == 0, "open", w)) return;
		g_calls = 0; g_fail_from = k; int rc = 0, i = 0; for(; i < frames && rc == 0; ++i) rc = put(s, r, d, max, false); long used = g_calls; g_calls = -1; g_fail_from = -1;
		std::vector<Line> v; std::vector<std::string> h; std::string idx = slurp(r.base + ".idx"); bool ok = lines(idx, v, h); if(rc == 0) CHECK(ok, "index is well formed", w);
		CHECK(v.size() >= r.fr.size(), "a frame reported as written is listed", cat(w, " listed ", v.size(), " reported ", r.fr.size()));
		for(size_t j = 0; j < r.fr.size() && j < v.size(); ++j) CHECK(part_has(r, v[j], r.fr[j].raw), "a frame reported as written is there", cat(w, " frame ", j));
		if(!r.fr.empty()) { CHECK(slurp(r.base + ".mass") == r.mass && slurp(r.base + ".col") == r.col, "masses and colors are there once a frame is reported", w); }
		if(used <= k) { CHECK(rc == 0, "no failure without a fault", w); break; }
		CHECK(rc != 0, "a failing disk is reported", w);
	}
}
// ---- reading
static Rec make(size_t n, long max, int frames) { size_t box = 1 + rndi(900); nbody_data d; setb(d, n, box); Rec r = fresh(n, box, d); nbody_data_stream s; s.open(Q(r.base), max); for(int i = 0; i < frames; ++i) put(s, r, d, max); s.close(); return r; }
static void walk(int ops)
{
	std::vector<Rec> rs; for(int k = 0; k < 3; ++k) rs.push_back(make(1 + rndi(6), k == 0 ? 1 : long(rndi(1500)), 1 + int(rndi(7))));
	CASE(cat("random walk of ", ops, " operations"));
	nbody_data_stream_reader rd; nbody_data d; const Rec* cur = nullptr; size_t at = 0; bool ended = false, first = false; std::string m, c; std::string h;
	for(int k = 0; k < ops; ++k)
	{
		size_t op = rndi(12);
		if(op == 0 || !cur)
		{
			cur = &rs[rndi(rs.size())]; h = cat(" load(", cur - &rs[0], ")"); if(rndi(4) == 0) rd.close();
			if(!CHECK(rd.load(Q(cur->base)) == 0, "load", h)) return; at = 0; ended = false; first = true; d.clear(); d.resize(cur->n); for(size_t i = 0; i < cur->n; ++i) { d.get_mass()[i] = -1; d.get_color()[i] = nbcolor_t(); }
			CHECK(rd.get_frame_count() == cur->fr.size() && rd.get_body_count() == cur->n && rd.get_box_size() == double(cur->box), "counts of the recording", h);
		}
		else if(op == 1) { size_t f = cur->fr.size() + rndi(3) * 1000000007ull; h += cat(" seek(", f, ")"); CHECK(rd.seek(f) != 0, "seeking beyond the end fails", h); CHECK(rd.get_current_frame() == at, "a failed seek leaves the current frame", h); }
		else if(op == 2) { nbody_data x; x.resize(cur->n + 1 + rndi(2)); std::string b = raw(x); h += " read(other size)"; CHECK(rd.read(&x) != 0 && raw(x) == b && rd.read(nullptr) != 0, "reading into bodies of another count fails", h); }
		else if(op < 7) { size_t f = rndi(3) ? rndi(cur->fr.size()) : cur->fr.size() - 1; h += cat(" seek(", f, ")"); CHECK(rd.seek(f) == 0, "seek", h); at = f; ended = false; CHECK(rd.get_current_frame() == f, "current frame", h); }
		else
		{
			h += " read"; int rc = rd.read(&d); if(ended) { CHECK(rc != 0, "nothing after the last frame", h); continue; }
			if(!CHECK(rc == 0, "read", h)) return; const Frame& f = cur->fr[at];
			CHECK(raw(d) == f.raw && d.get_step() == f.step && near(d.get_time(), f.time, fabsl(f.time), 6e-15L), "the frame sought is the one read", cat(h, " (frame ", at, ")"));
			if(first) { CHECK(std::string((const char*)d.get_mass(), 8 * cur->n) == cur->mass && std::string((const char*)d.get_color(), 16 * cur->n) == cur->col, "the first read brings masses and colors", h); first = false; }
			if(at + 1 < cur->fr.size()) ++at; else ended = true; CHECK(rd.get_current_frame() == at, "current frame after reading", h);
		}
		if(h.size() > 300) h = "..." + h.substr(h.size() - 250);
	}
}
static void damaged()
{
	Rec r = make(3, 1, 4); std::string idx = slurp(r.base + ".idx"), H = "#coord_size 8\n#body_count 3\n#box_size 9\n";
	struct { const char* what; std::string text; bool ok; } T[] = {
		{"as written", idx, true}, {"no header", "0\t0\t0\t0\n", false}, {"no body count", "#coord_size 8\n#box_size 9\n0\t0\t0\t0\n", false}, {"no box", "#coord_size 8\n#body_count 3\n0\t0\t0\t0\n", false}, {"no coord size", "#body_count 3\n#box_size 9\n0\t0\t0\t0\n", false}, {"other coord size", "#coord_size 4\n#body_count 3\n#box_size 9\n0\t0\t0\t0\n", false},
		{"three columns", H + "0\t0\t0\n", false}, {"five columns", H + "0\t0\t0\t0\t0\n", false}, {"bad step", H + "x\t0\t0\t0\n", false}, {"negative step", H + "-1\t0\t0\t0\n", false}, {"bad time", H + "0\t1.5s\t0\t0\n", false}, {"bad part", H + "0\t0\t0.5\t0\n", false}, {"bad position", H + "0\t0\t0\tq\n", false}, {"empty column", H + "0\t\t0\t0\n", false}, {"no frames", H, false}, {"empty", "", false}, {"cut line", H + "0\t0\t0\t0\n1\t0.5\t0", false}, {"bad line after a good one", H + "0\t0\t0\t0\n1\t0.5\t0\tz\n", false},
		{"header last", "0\t0\t0\t0\n" + H, true}, {"unknown header lines", H + "#color blue\n#a b c\n0\t0\t0\t0\n", true}, {"first part missing", H + "0\t0\t77\t0\n", false}, {"negative position", H + "0\t0\t0\t-5\n", false}, {"exponent", H + "5\t1e-3\t0\t0\n", true}, {"large values", H + "18446744073709551615\t-1e300\t0\t0\n", true}};
	for(auto& t : T) for(int fresh_reader = 0; fresh_reader < 2; ++fresh_reader)
	{
		CASE(t.what); nbody_data_stream_reader rd; spit(r.base + ".idx", idx); if(!fresh_reader) { nbody_data q; q.resize(3); rd.load(Q(r.base)); rd.read(&q); }
		spit(r.base + ".idx", t.text); int rc = rd.load(Q(r.base)); CHECK((rc == 0) == t.ok, t.ok ? "a valid index loads" : "an invalid index is rejected", cat(t.what, fresh_reader ? "" : ", after another recording"));
		if(!t.ok) { nbody_data q; q.resize(3); CHECK(rd.read(&q) != 0, "nothing to read after a rejected index", t.what); }
	}
	spit(r.base + ".idx", idx);
	// a part that is gone
	unlink((r.base + "2.dat").c_str()); { CASE("missing part"); nbody_data_stream_reader rd; nbody_data d; d.resize(3); CHECK(rd.load(Q(r.base)) == 0 && rd.read(&d) == 0 && raw(d) == r.fr[0].raw && rd.read(&d) == 0 && raw(d) == r.fr[1].raw, "frames before a missing part", ""); CHECK(rd.read(&d) != 0 && rd.seek(2) != 0 && rd.read(&d) != 0, "a missing part is reported", ""); CHECK(rd.seek(3) == 0 && rd.read(&d) == 0 && raw(d) == r.fr[3].raw && rd.seek(1) == 0 && rd.read(&d) == 0 && raw(d) == r.fr[1].raw, "the other parts are still readable", ""); for(size_t f : {size_t(0), size_t(1), size_t(3)}) { CHECK(rd.seek(f) == 0 && rd.seek(2) != 0 && rd.get_current_frame() == f, "a failed seek leaves the current frame", cat("at frame ", f, " now ", rd.get_current_frame())); CHECK(rd.seek(f) == 0 && rd.read(&d) == 0 && raw(d) == r.fr[f].raw, "frame after a failed seek", cat("frame ", f)); } }
	// a part that is cut
	std::string p = slurp(r.base + "3.dat"); for(size_t l : {size_t(0), size_t(1), p.size() / 2, p.size() - 1}) { CASE("cut part"); spit(r.base + "3.dat", p.substr(0, l)); nbody_data_stream_reader rd; nbody_data d; d.resize(3); CHECK(rd.load(Q(r.base)) == 0 && rd.seek(3) == 0 && rd.read(&d) != 0, "a cut frame is reported", cat("length ", l)); }
	{ CASE("not there"); nbody_data_stream_reader rd; nbody_data d; d.resize(3); CHECK(rd.load(Q(g_dir + "/none/x")) != 0 && rd.get_frame_count() == 0 && rd.get_steps_count() == 0 && rd.get_max_time() == 0 && rd.get_last_file_n() == 0 && rd.read(&d) != 0 && rd.seek(0) != 0, "no recording", ""); nbody_data e; CHECK(rd.read(&e) != 0, "no recording, no bodies", ""); }
	{ CASE("names"); CHECK(nbody_data_stream::make_idx_name("a/b") == "a/b.idx" && nbody_data_stream::make_col_name("a/b") == "a/b.col" && nbody_data_stream::make_mass_name("a/b") == "a/b.mass" && nbody_data_stream::make_dat_name("a/b", 12) == "a/b12.dat", "file names", ""); }
}
int main(int argc, char** argv)
{
	qInstallMessageHandler(quiet); Args a = args(argc, argv); g_dir = a.dir + "/out"; QDir().mkpath(Q(g_dir));
	if(a.group == "record" || a.group == "all")
	{
		for(size_t n : {size_t(1), size_t(2), size_t(5), size_t(40), size_t(400)}) { long f = 48 * long(n); for(long max : {-1L, 0L, 1L, f - 1, f, f + 1, 2 * f, 3 * f - 1, 1L << 40}) record(n, max, 7, 2, "recording"); }
		for(int i = 0, R = a.thorough ? 600 : 40; i < R; ++i) record(1 + rndi(30), long(rndi(4000)) - 5, 1 + int(rndi(14)), int(rndi(4)), "random recording");
		record(800, 1 << 20, 30, 1, "larger recording"); reuse();
	}
	if(a.group == "faults" || a.group == "all") { for(size_t n : {size_t(1), size_t(3), size_t(100), size_t(700)}) for(long max : {-1L, 1L, 48 * long(n) * 2}) faults(n, max, n > 500 ? 3 : 5); }
	if(a.group == "read" || a.group == "all") { for(int i = 0, R = a.thorough ? 1000 : 60; i < R; ++i) walk(80); damaged(); }
	return DONE();
}
