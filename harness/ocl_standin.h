// A stand-in for an OpenCL platform: the real host code and the real kernels run against it on the CPU.
// Kernels are compiled from the source and options the host hands to clBuildProgram. Commands run as late and in as
// arbitrary an order as OpenCL allows (in-order queues, nothing before somebody waits for it); work-groups and
// work-items in arbitrary order, work-items of a group in turns from barrier to barrier. Device memory starts as NaN,
// with guarded margins. Rules a real platform enforces (sizes, contexts, argument types) give the error codes of the standard.
#ifndef NBV_OCL_H
#define NBV_OCL_H
#define CL_TARGET_OPENCL_VERSION 120
#include <CL/cl.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <deque>
#include <fstream>
#include <memory>
#include "common.h"
namespace ocl {
static std::string dir = "."; static bool unsupported = false; static std::string complaint; static int nplat = 2, ndev = 4;
static const size_t MARGIN = 4096; static uint64_t seed = 1;
static uint64_t rng() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
struct Prog { void* so = 0; std::map<std::string, std::vector<char>> sig; std::set<std::string> waits; bool ok = false; };
static std::map<std::string, std::shared_ptr<Prog>> cache;
struct Mem; struct Cmd;
}
struct _cl_platform_id { int n; };
struct _cl_device_id { int p, n; };
struct _cl_context { int ref; std::vector<cl_device_id> dev; };
struct _cl_command_queue { int ref; cl_context c; std::deque<std::shared_ptr<ocl::Cmd>> todo; };
struct _cl_mem { int ref; cl_context c; size_t size; char* raw; char* p; };
struct _cl_program { int ref; cl_context c; std::string src, log; std::shared_ptr<ocl::Prog> p; };
struct Arg { bool set = false; size_t size = 0; char v[16]; };
struct _cl_kernel { int ref; cl_program p; std::string name; void* f; std::vector<char> sig; std::vector<Arg> a; };
struct _cl_event { int ref; std::shared_ptr<ocl::Cmd> c; };
namespace ocl {
struct Cmd { cl_command_queue q; std::function<void()> f; bool done = false; std::vector<cl_mem> keep; };
static _cl_platform_id plat[8]; static _cl_device_id devs[8][8]; static std::set<cl_mem> mems; static size_t live_mem = 0;
static void drop(cl_mem m)
{
	if(--m->ref) return; --live_mem; mems.erase(m);
	for(size_t i = 0; i < MARGIN; ++i) if((unsigned char)(m->raw[i]) != 0xff || (unsigned char)(m->raw[MARGIN + m->size + i]) != 0xff) { complaint = "write outside a buffer"; break; }
	free(m->raw); delete m;
}
static void margins() { for(cl_mem m : mems) for(size_t i = 0; i < MARGIN; ++i) if((unsigned char)(m->raw[i]) != 0xff || (unsigned char)(m->raw[MARGIN + m->size + i]) != 0xff) { complaint = "write outside a buffer"; return; } }
static void step(cl_command_queue q) { std::shared_ptr<Cmd> c = q->todo.front(); q->todo.pop_front(); c->f(); c->f = nullptr; c->done = true; for(cl_mem m : c->keep) drop(m); c->keep.clear(); }
static void until(std::vector<std::shared_ptr<Cmd>> w)
{
	for(;;) { std::vector<cl_command_queue> r; for(auto& c : w) if(!c->done) r.push_back(c->q); if(r.empty()) return; step(r[rng() % r.size()]); }
}
static cl_int add(cl_command_queue q, std::function<void()> f, std::vector<cl_mem> keep, cl_event* ev, bool block, cl_uint nw, const cl_event* wl)
{
	if(nw || wl) for(cl_uint i = 0; i < nw; ++i) if(wl[i]->c->q != q) until({wl[i]->c});
	auto c = std::make_shared<Cmd>(); c->q = q; c->f = f; for(cl_mem m : keep) ++m->ref; c->keep = keep; q->todo.push_back(c);
	if(ev) *ev = new _cl_event{1, c}; if(block) until({c}); return CL_SUCCESS;
}
// work-items
struct Item { size_t g, l; };
static Item cur; static size_t gsz, lsz; static ucontext_t mainc; static std::vector<ucontext_t> fib; static std::vector<char*> stk; static std::vector<char> fin; static std::vector<Item> items; static size_t at;
static void* kf; static uint64_t ia[32]; static double da[8];
static const size_t STK = 256 * 1024;
typedef void (*KF)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double);
__attribute__((no_sanitize("address"), no_sanitize("undefined"))) static void call() { ((KF)kf)(ia[0], ia[1], ia[2], ia[3], ia[4], ia[5], ia[6], ia[7], ia[8], ia[9], ia[10], ia[11], ia[12], ia[13], ia[14], ia[15], ia[16], ia[17], ia[18], ia[19], da[0], da[1], da[2], da[3]); }
__attribute__((no_sanitize("address"))) static void body() { call(); fin[at] = 1; swapcontext(&fib[at], &mainc); }
__attribute__((no_sanitize("address"))) static void yield() { size_t i = at; swapcontext(&fib[i], &mainc); }
__attribute__((no_sanitize("address"))) static void group(size_t first)
{
	while(fib.size() < lsz) { fib.push_back(ucontext_t()); stk.push_back((char*)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); }
	fin.assign(lsz, 0); items.resize(lsz); std::vector<size_t> ord(lsz);
	for(size_t i = 0; i < lsz; ++i) { ord[i] = i; items[i].l = i; items[i].g = first + i; getcontext(&fib[i]); fib[i].uc_stack.ss_sp = stk[i]; fib[i].uc_stack.ss_size = STK; fib[i].uc_link = 0; makecontext(&fib[i], body, 0); }
	if(rng() % 2) std::reverse(ord.begin(), ord.end());
	for(;;)
	{
		size_t left = 0, done = 0; for(size_t i : ord) { if(fin[i]) { ++done; continue; } at = i; cur = items[i]; swapcontext(&mainc, &fib[i]); if(fin[i]) ++done; else ++left; }
		if(left == 0) break; if(done) { complaint = "work-items of a group part at a barrier"; break; }
	}
}
static void kernel(void* f, bool waits, std::vector<char> sig, std::vector<Arg> a, size_t g, size_t l)
{
	kf = f; memset(ia, 0, sizeof ia); memset(da, 0, sizeof da); size_t ni = 0, nd = 0;
	for(size_t i = 0; i < sig.size(); ++i)
	{
		if(sig[i] == 'p') { cl_mem m; memcpy(&m, a[i].v, 8); ia[ni++] = (uint64_t)m->p; }
		else if(sig[i] == 'd') memcpy(&da[nd++], a[i].v, 8); else if(sig[i] == 'i') { int32_t v; memcpy(&v, a[i].v, 4); ia[ni++] = (uint64_t)(int64_t)v; } else { uint64_t v; memcpy(&v, a[i].v, 8); ia[ni++] = v; }
	}
	gsz = g; lsz = l; std::vector<size_t> gr; for(size_t i = 0; i < g / l; ++i) gr.push_back(i); for(size_t i = gr.size(); i > 1; --i) std::swap(gr[i - 1], gr[rng() % i]);
	for(size_t i : gr) if(waits) group(i * l); else { bool rev = rng() % 2; for(size_t j = 0; j < l; ++j) { cur.l = rev ? l - 1 - j : j; cur.g = i * l + cur.l; call(); } } margins();
}
static std::string quote(const std::string& s) { std::string r = "'"; for(char c : s) if(c == '\'') r += "'\\''"; else r += c; return r + "'"; }
static std::shared_ptr<Prog> build(const std::string& src, const std::string& opt, std::string& log)
{
	std::string key = opt + "\n" + src; if(cache.count(key)) return cache[key]; auto P = cache[key] = std::make_shared<Prog>(); std::string b = dir + "/k" + S(cache.size()); { std::ofstream o(b + ".cl"); o << src; }
	std::string o; { std::istringstream is(opt); std::string t; while(is >> t) if(t.compare(0, 2, "-D") == 0 || t.compare(0, 8, "-cl-std=") == 0) o += " " + quote(t); else if(t.compare(0, 4, "-cl-") != 0 && t != "-w" && t != "-Werror") { log = "unknown option " + t; return P; } }
	if(o.find("-cl-std=") == std::string::npos) o += " -cl-std=CL1.2"; if(o.find("-D__OPENCL_VERSION__") == std::string::npos) o += " -D__OPENCL_VERSION__=120";
	std::string cmd = "clang -x cl" + o + " -w -O1 -fPIC -ffp-contract=off -Xclang -fdeclare-opencl-builtins -Xclang -finclude-default-header " + quote(b + ".cl");
	if(system((cmd + " -S -emit-llvm -o " + quote(b + ".ll") + " >" + quote(b + ".log") + " 2>&1").c_str()) != 0) { std::ifstream l(b + ".log"); std::string t; while(std::getline(l, t)) log += t + "\n"; return P; }
	if(system((cmd + " -shared -o " + quote(b + ".so") + " >" + quote(b + ".log") + " 2>&1").c_str()) != 0) { unsupported = true; return P; }
	std::ifstream l(b + ".ll"); std::string t;
	std::string fn; bool any = false;
	while(std::getline(l, t)) { if(t.find(" call ") != std::string::npos && t.find("barrier") != std::string::npos) { P->waits.insert(fn); any = true; } if(t.compare(0, 7, "define ") == 0)
	{
		size_t x = t.find('@'), y = t.find('(', x); if(x == std::string::npos || y == std::string::npos) continue; std::string n = fn = t.substr(x + 1, y - x - 1); std::vector<char> s; size_t p = y + 1; int dep = 0; std::string w; bool first = true;
		for(; p < t.size(); ++p)
		{
			char c = t[p]; if(c == '(') ++dep; if(c == ')') { if(dep == 0) break; --dep; }
			if(c == ',' && dep == 0) { first = true; w.clear(); continue; }
			if(first && c == ' ' && w.empty()) continue;
			if(first && c == ' ') { s.push_back(w == "ptr" ? 'p' : w == "double" ? 'd' : w == "i32" ? 'i' : w == "i64" ? 'l' : '?'); first = false; } else if(first) w += c;
		}
		P->sig[n] = s;
	} }
	if(any) { std::ifstream l2(b + ".ll"); std::string g; while(std::getline(l2, t)) { if(t.compare(0, 7, "define ") == 0) { size_t x = t.find('@'), y = t.find('(', x); g = t.substr(x + 1, y - x - 1); } else for(auto& f : std::set<std::string>(P->waits)) if(t.find(" call ") != std::string::npos && t.find("@" + f + "(") != std::string::npos) P->waits.insert(g); } }
	P->so = dlopen((b[0] == '/' ? b + ".so" : "./" + b + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if(!P->so) { unsupported = true; log = dlerror(); return P; }
	P->ok = true; return P;
}
static cl_int give(size_t n, const void* v, size_t size, void* out, size_t* ret) { if(ret) *ret = n; if(out) { if(size < n) return CL_INVALID_VALUE; memcpy(out, v, n); } return CL_SUCCESS; }
static cl_int text(const std::string& s, size_t size, void* out, size_t* ret) { return give(s.size() + 1, s.c_str(), size, out, ret); }
}
using ocl::add;
// functions kernels may call
extern "C" {
typedef double v3 __attribute__((vector_size(32)));
#define NBVX __attribute__((visibility("default")))
NBVX size_t _Z13get_global_idj(unsigned d) { return d ? 0 : ocl::cur.g; }
NBVX size_t _Z12get_local_idj(unsigned d) { return d ? 0 : ocl::cur.l; }
NBVX size_t _Z12get_group_idj(unsigned d) { return d ? 0 : ocl::cur.g / ocl::lsz; }
NBVX size_t _Z15get_global_sizej(unsigned d) { return d ? 1 : ocl::gsz; }
NBVX size_t _Z14get_local_sizej(unsigned d) { return d ? 1 : ocl::lsz; }
NBVX size_t _Z14get_num_groupsj(unsigned d) { return d ? 1 : ocl::gsz / ocl::lsz; }
NBVX __attribute__((no_sanitize("address"))) void _Z7barrierj(unsigned) { ocl::yield(); }
NBVX void _Z9mem_fencej(unsigned) {}
NBVX double _Z3maxdd(double a, double b) { return a < b ? b : a; }
NBVX double _Z3mindd(double a, double b) { return b < a ? b : a; }
NBVX int _Z3maxii(int a, int b) { return a < b ? b : a; }
NBVX int _Z3minii(int a, int b) { return b < a ? b : a; }
NBVX double _Z4fmaxdd(double a, double b) { return fmax(a, b); }
NBVX double _Z4fmindd(double a, double b) { return fmin(a, b); }
NBVX double _Z4fabsd(double a) { return fabs(a); }
NBVX double _Z4sqrtd(double a) { return sqrt(a); }
NBVX double _Z5rsqrtd(double a) { return 1 / sqrt(a); }
NBVX double _Z3fmaddd(double a, double b, double c) { return fma(a, b, c); }
NBVX double _Z3madddd(double a, double b, double c) { return a * b + c; }
NBVX double _Z5clampddd(double a, double b, double c) { return a < b ? b : c < a ? c : a; }
NBVX int _Z3ctzi(int a) { return a ? __builtin_ctz(unsigned(a)) : 32; }
NBVX int _Z3clzi(int a) { return a ? __builtin_clz(unsigned(a)) : 32; }
}
// double3 is passed in memory for this target: distance, length and dot are compiled with the kernels' compiler in a helper source
static const char* ocl_helpers =
	"double __attribute__((overloadable)) nbv_d3(double3 a, double3 b) { double x = a.x - b.x, y = a.y - b.y, z = a.z - b.z; return sqrt(x * x + y * y + z * z); }\n"
	"double __attribute__((overloadable)) nbv_l3(double3 a) { return sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }\n"
	"double __attribute__((overloadable)) nbv_dot3(double3 a, double3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }\n"
	"#define distance(a, b) nbv_d3(a, b)\n#define length(a) nbv_l3(a)\n#define dot(a, b) nbv_dot3(a, b)\n";
extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* r) { for(int i = 0; i < ocl::nplat; ++i) { ocl::plat[i].n = i; if(p && cl_uint(i) < n) p[i] = &ocl::plat[i]; } if(r) *r = ocl::nplat; return CL_SUCCESS; }
cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info w, size_t s, void* o, size_t* r) { return ocl::text(w == CL_PLATFORM_VERSION ? "OpenCL 1.2 stand-in" : "stand-in", s, o, r); }
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type, cl_uint n, cl_device_id* d, cl_uint* r) { for(int i = 0; i < ocl::ndev; ++i) { ocl::devs[p->n][i].p = p->n; ocl::devs[p->n][i].n = i; if(d && cl_uint(i) < n) d[i] = &ocl::devs[p->n][i]; } if(r) *r = ocl::ndev; return CL_SUCCESS; }
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info w, size_t s, void* o, size_t* r)
{
	if(w == CL_DEVICE_PLATFORM) { cl_platform_id p = &ocl::plat[d->p]; return ocl::give(sizeof p, &p, s, o, r); }
	if(w == CL_DEVICE_VERSION) return ocl::text("OpenCL 1.2 stand-in", s, o, r); if(w == CL_DEVICE_NAME || w == CL_DRIVER_VERSION || w == CL_DEVICE_PROFILE || w == CL_DEVICE_VENDOR) return ocl::text("stand-in", s, o, r);
	uint64_t z[4] = {0, 0, 0, 0}; return ocl::give(s, z, s > sizeof z ? 0 : s, o, r);
}
cl_context clCreateContext(const cl_context_properties*, cl_uint n, const cl_device_id* d, void (CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* e) { if(n == 0) { if(e) *e = CL_INVALID_VALUE; return 0; } for(cl_uint i = 1; i < n; ++i) if(d[i]->p != d[0]->p) { if(e) *e = CL_INVALID_DEVICE; return 0; } if(e) *e = CL_SUCCESS; return new _cl_context{1, std::vector<cl_device_id>(d, d + n)}; }
cl_int clRetainContext(cl_context c) { ++c->ref; return CL_SUCCESS; } cl_int clReleaseContext(cl_context c) { --c->ref; return CL_SUCCESS; }
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; } cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties, cl_int* e) { if(std::find(c->dev.begin(), c->dev.end(), d) == c->dev.end()) { if(e) *e = CL_INVALID_DEVICE; return 0; } if(e) *e = CL_SUCCESS; cl_command_queue q = new _cl_command_queue; q->ref = 1; q->c = c; return q; }
cl_int clRetainCommandQueue(cl_command_queue q) { ++q->ref; return CL_SUCCESS; }
cl_int clReleaseCommandQueue(cl_command_queue q) { if(--q->ref == 0) { while(!q->todo.empty()) ocl::step(q); } return CL_SUCCESS; }
cl_int clFinish(cl_command_queue q) { while(!q->todo.empty()) ocl::step(q); return CL_SUCCESS; } cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags, size_t n, void* h, cl_int* e)
{
	if(n == 0 || h) { if(e) *e = CL_INVALID_BUFFER_SIZE; return 0; } if(e) *e = CL_SUCCESS; cl_mem m = new _cl_mem; m->ref = 1; m->c = c; m->size = n; m->raw = (char*)malloc(n + 2 * ocl::MARGIN); memset(m->raw, 0xff, n + 2 * ocl::MARGIN); m->p = m->raw + ocl::MARGIN; ocl::mems.insert(m); ++ocl::live_mem; return m;
}
cl_int clRetainMemObject(cl_mem m) { ++m->ref; return CL_SUCCESS; } cl_int clReleaseMemObject(cl_mem m) { ocl::drop(m); return CL_SUCCESS; }
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char** s, const size_t* l, cl_int* e) { cl_program p = new _cl_program; p->ref = 1; p->c = c; for(cl_uint i = 0; i < n; ++i) p->src += l && l[i] ? std::string(s[i], l[i]) : std::string(s[i]); if(e) *e = CL_SUCCESS; return p; }
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*, const char* o, void (CL_CALLBACK*)(cl_program, void*), void*) { std::string src = "#pragma OPENCL EXTENSION cl_khr_fp64 : enable\n" + std::string(ocl_helpers) + "#line 1\n" + p->src; p->p = ocl::build(src, o ? o : "", p->log); return p->p->ok ? CL_SUCCESS : CL_BUILD_PROGRAM_FAILURE; }
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info w, size_t s, void* o, size_t* r) { if(w == CL_PROGRAM_BUILD_STATUS) { cl_build_status b = p->p && p->p->ok ? CL_BUILD_SUCCESS : CL_BUILD_ERROR; return ocl::give(sizeof b, &b, s, o, r); } return ocl::text(p->log, s, o, r); }
cl_int clGetProgramInfo(cl_program p, cl_program_info w, size_t s, void* o, size_t* r) { if(w == CL_PROGRAM_NUM_DEVICES) { cl_uint n = p->c->dev.size(); return ocl::give(sizeof n, &n, s, o, r); } if(w == CL_PROGRAM_DEVICES) return ocl::give(p->c->dev.size() * sizeof(cl_device_id), p->c->dev.data(), s, o, r); return CL_INVALID_VALUE; }
cl_int clRetainProgram(cl_program p) { ++p->ref; return CL_SUCCESS; } cl_int clReleaseProgram(cl_program p) { --p->ref; return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char* n, cl_int* e)
{
	if(!p->p || !p->p->ok) { if(e) *e = CL_INVALID_PROGRAM_EXECUTABLE; return 0; } void* f = dlsym(p->p->so, n); if(!f || !p->p->sig.count(n)) { if(e) *e = CL_INVALID_KERNEL_NAME; return 0; }
	cl_kernel k = new _cl_kernel; k->ref = 1; k->p = p; k->name = n; k->f = f; k->sig = p->p->sig[n]; k->a.resize(k->sig.size()); if(e) *e = CL_SUCCESS; return k;
}
cl_int clRetainKernel(cl_kernel k) { ++k->ref; return CL_SUCCESS; } cl_int clReleaseKernel(cl_kernel k) { if(--k->ref == 0) delete k; return CL_SUCCESS; }
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v)
{
	if(i >= k->sig.size()) return CL_INVALID_ARG_INDEX; char t = k->sig[i]; if(t == '?') { ocl::unsupported = true; return CL_INVALID_ARG_VALUE; } if(n != (t == 'i' ? 4u : 8u) || !v) return CL_INVALID_ARG_SIZE;
	if(t == 'p') { cl_mem m; memcpy(&m, v, 8); if(!ocl::mems.count(m)) return CL_INVALID_MEM_OBJECT; } else if(n == 8) { cl_mem m; memcpy(&m, v, 8); if(ocl::mems.count(m)) return CL_INVALID_ARG_VALUE; }
	k->a[i].set = true; k->a[i].size = n; memcpy(k->a[i].v, v, n); return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint d, const size_t* off, const size_t* g, const size_t* l, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(d != 1) return CL_INVALID_WORK_DIMENSION; if(off && off[0]) { ocl::unsupported = true; return CL_INVALID_GLOBAL_OFFSET; } if(!g || g[0] == 0) return CL_INVALID_GLOBAL_WORK_SIZE;
	size_t G = g[0], L = 1; if(l) { L = l[0]; if(L == 0 || L > 1024 || G % L) return CL_INVALID_WORK_GROUP_SIZE; } else { for(size_t c : {size_t(64), size_t(16), size_t(2), size_t(3)}) if(G % c == 0) { L = c; break; } }
	if(k->p->c != q->c) return CL_INVALID_CONTEXT; std::vector<cl_mem> keep; for(size_t i = 0; i < k->sig.size(); ++i) { if(!k->a[i].set) return CL_INVALID_KERNEL_ARGS; if(k->sig[i] == 'p') { cl_mem m; memcpy(&m, k->a[i].v, 8); if(!ocl::mems.count(m)) return CL_INVALID_KERNEL_ARGS; if(m->c != q->c) return CL_INVALID_CONTEXT; keep.push_back(m); } }
	bool waits = k->p->p->waits.count(k->name); auto f = k->f; auto sig = k->sig; auto a = k->a; return add(q, [ = ]() { ocl::kernel(f, waits, sig, a, G, L); }, keep, ev, false, nw, wl);
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, void* p, cl_uint nw, const cl_event* wl, cl_event* ev) { if(m->c != q->c) return CL_INVALID_CONTEXT; if(n == 0 || o > m->size || n > m->size - o || !p) return CL_INVALID_VALUE; return add(q, [ = ]() { memcpy(p, m->p + o, n); }, {m}, ev, b, nw, wl); }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t o, size_t n, const void* p, cl_uint nw, const cl_event* wl, cl_event* ev) { if(m->c != q->c) return CL_INVALID_CONTEXT; if(n == 0 || o > m->size || n > m->size - o || !p) return CL_INVALID_VALUE; return add(q, [ = ]() { memcpy(m->p + o, p, n); }, {m}, ev, b, nw, wl); }
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem s, cl_mem t, size_t so, size_t to, size_t n, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(s->c != q->c || t->c != q->c) return CL_INVALID_CONTEXT; if(n == 0 || so > s->size || n > s->size - so || to > t->size || n > t->size - to) return CL_INVALID_VALUE; if(s == t && (so < to ? to - so : so - to) < n) return CL_MEM_COPY_OVERLAP;
	return add(q, [ = ]() { memcpy(t->p + to, s->p + so, n); }, {s, t}, ev, false, nw, wl);
}
static bool rectok(size_t size, const size_t* o, const size_t* r, size_t rp, size_t sp) { if(!r[0] || !r[1] || !r[2]) return false; if(rp == 0) rp = r[0]; if(sp == 0) sp = rp * r[1]; if(rp < r[0] || sp < rp * r[1]) return false; return o[0] + o[1] * rp + o[2] * sp + (r[2] - 1) * sp + (r[1] - 1) * rp + r[0] <= size; }
static void rect(char* t, const size_t* to, size_t trp, size_t tsp, const char* s, const size_t* so, size_t srp, size_t ssp, const size_t* r)
{
	if(trp == 0) trp = r[0]; if(tsp == 0) tsp = trp * r[1]; if(srp == 0) srp = r[0]; if(ssp == 0) ssp = srp * r[1];
	for(size_t z = 0; z < r[2]; ++z) for(size_t y = 0; y < r[1]; ++y) memcpy(t + to[0] + (to[1] + y) * trp + (to[2] + z) * tsp, s + so[0] + (so[1] + y) * srp + (so[2] + z) * ssp, r[0]);
}
struct R3 { size_t v[3]; R3(const size_t* p) { v[0] = p[0]; v[1] = p[1]; v[2] = p[2]; } };
cl_int clEnqueueCopyBufferRect(cl_command_queue q, cl_mem s, cl_mem t, const size_t* so, const size_t* to, const size_t* r, size_t srp, size_t ssp, size_t trp, size_t tsp, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(s->c != q->c || t->c != q->c) return CL_INVALID_CONTEXT; if(!rectok(s->size, so, r, srp, ssp) || !rectok(t->size, to, r, trp, tsp)) return CL_INVALID_VALUE; R3 a(so), b(to), c(r);
	return add(q, [ = ]() { rect(t->p, b.v, trp, tsp, s->p, a.v, srp, ssp, c.v); }, {s, t}, ev, false, nw, wl);
}
cl_int clEnqueueReadBufferRect(cl_command_queue q, cl_mem m, cl_bool bl, const size_t* so, const size_t* to, const size_t* r, size_t srp, size_t ssp, size_t trp, size_t tsp, void* p, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(m->c != q->c) return CL_INVALID_CONTEXT; if(!rectok(m->size, so, r, srp, ssp) || !p) return CL_INVALID_VALUE; R3 a(so), b(to), c(r); return add(q, [ = ]() { rect((char*)p, b.v, trp, tsp, m->p, a.v, srp, ssp, c.v); }, {m}, ev, bl, nw, wl);
}
cl_int clEnqueueWriteBufferRect(cl_command_queue q, cl_mem m, cl_bool bl, const size_t* to, const size_t* so, const size_t* r, size_t trp, size_t tsp, size_t srp, size_t ssp, const void* p, cl_uint nw, const cl_event* wl, cl_event* ev)
{
	if(m->c != q->c) return CL_INVALID_CONTEXT; if(!rectok(m->size, to, r, trp, tsp) || !p) return CL_INVALID_VALUE; R3 a(so), b(to), c(r); return add(q, [ = ]() { rect(m->p, b.v, trp, tsp, (const char*)p, a.v, srp, ssp, c.v); }, {m}, ev, bl, nw, wl);
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void* pat, size_t pn, size_t o, size_t n, cl_uint nw, const cl_event* wl, cl_event* ev) { if(m->c != q->c) return CL_INVALID_CONTEXT; if(o > m->size || n > m->size - o || !pn || n % pn || o % pn) return CL_INVALID_VALUE; std::string s((const char*)pat, pn); return add(q, [ = ]() { for(size_t i = 0; i < n; i += s.size()) memcpy(m->p + o + i, s.data(), s.size()); }, {m}, ev, false, nw, wl); }
cl_int clWaitForEvents(cl_uint n, const cl_event* e) { if(n == 0 || !e) return CL_INVALID_VALUE; std::vector<std::shared_ptr<ocl::Cmd>> w; for(cl_uint i = 0; i < n; ++i) { if(!e[i]) return CL_INVALID_EVENT; w.push_back(e[i]->c); } ocl::until(w); return CL_SUCCESS; }
cl_int clRetainEvent(cl_event e) { ++e->ref; return CL_SUCCESS; } cl_int clReleaseEvent(cl_event e) { if(--e->ref == 0) delete e; return CL_SUCCESS; }
cl_int clGetEventProfilingInfo(cl_event e, cl_profiling_info, size_t s, void* o, size_t* r) { if(!e->c->done) return CL_PROFILING_INFO_NOT_AVAILABLE; cl_ulong t = 1; return ocl::give(sizeof t, &t, s, o, r); }
}
#endif
