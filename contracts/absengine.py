"""The engine interface as solvers see it: every engine operation is replaced by its contract (verified for the CPU engines in C01-C04).

A buffer is a handle with one ghost value: the generic element of the vector it holds, a term over the initial vectors and F(t, .), the derivative of a
whole vector at a time.  All operations are elementwise and uniform, so equal ghost terms mean equal vectors."""
from contracts.englib import *
from nbv.models import vec_parts
from nbv.terms import cval, neg

GH = 1 << 20          # offset of the ghost cell of a handle
ENGCLS = 'nbody_engine_simple'   # any concrete class: only its slot layout is used
def F(t, v): return app('F', [v, t], 'R')
def norm(v):
    # largest absolute value: |-v| = |v|, so keep one sign
    k = cval(v)
    if k is not None and k == 0: return R(0)
    if k is None and v.args[0][0][1] < 0: v = neg(v)
    return app('norm', [v], 'R')

class AbsEngine:
    def __init__(self, w, y0=None):
        self.w = w; self.bufs = []; self.calls = []; self.round = False; self.eps = []; self.fargs = []
        cx = w.cx
        self.e = w.ctor(ENGCLS)
        self.ps = w.N('ps', 6)
        self.t0 = var('t0', 'R')
        self.y0 = y0 if y0 is not None else var('y0', 'R')
        self.ti = Ptr(self.e.r, GH); self.sp = Ptr(self.e.r, GH + 8); self.cc = Ptr(self.e.r, GH + 16)
        store(cx, w.st, self.ti, self.t0, DOUBLE); store(cx, w.st, self.sp, I(0), I64)
        store(cx, w.st, self.cc, I(0), I64)
        self.y = self.new('y', self.y0)
        # contracts keyed by the function each slot of the interface resolves to
        ops = dict(problem_size=self.c_ps, get_y=self.c_gety, advise_time=self.c_adv, get_time=self.c_gett, set_time=self.c_sett,
                   get_step=self.c_getstep, set_step=self.c_setstep, fcompute=self.c_f, create_buffer=self.c_new, free_buffer=self.c_free,
                   copy_buffer=self.c_copy, fill_buffer=self.c_fill, fmadd_inplace=self.c_fmi, fmadd=self.c_fm, fmaddn_inplace=self.c_fni,
                   fmaddn_corr=self.c_corr, fmaddn=self.c_fn, fmaxabs=self.c_max, clamp=self.c_clamp, get_data=self.c_getdata)
        for k, h in ops.items(): cx.contracts[w.vfn(ENGCLS, k)] = self.wrap(k, h)
        cx.assumptions.add('solver contracts use the engine interface contracts (elementwise algebra C02, derivative C01 as an uninterpreted function of the time and the whole state, Kahan C03 = exact sum in real arithmetic)')
    def wrap(self, k, h):
        def f(c):
            a0 = c.args[0]
            if not (isinstance(a0, Ptr) and a0.r is self.e.r):
                raise Unsupported('engine operation %s on %r' % (k, a0))
            return h(c, *c.args[1:])
        return f
    def new(self, name, v):
        r = Region('buf:' + name, None, None, {'buf': True})
        self.w.st.mem[r.id] = (('C', {GH: (v, 8)}),)
        self.bufs.append(r)
        return Ptr(r, 0)
    # ---- ghost access
    def get(self, st, p, what=''):
        if isinstance(p, PIte):
            return ite(p.c, self.get(st, p.a, what), self.get(st, p.b, what))
        if not isinstance(p, Ptr) or not p.r.meta.get('buf'): raise Unsupported('%s: not an engine buffer (%r)' % (what, p))
        return load(self.w.cx, st, Ptr(p.r, GH), DOUBLE)
    def ok(self, c, *ps):
        for p in ps:
            if isinstance(p, NullT):
                c.cx.oblige('pre', 'engine buffer exists at ' + c.where, c.st, FALSE); raise Infeasible()
    def put(self, st, p, v):
        if isinstance(p, PIte):
            # the buffer depends on the path: conditional update of both candidates
            oa, ob = self.get(st, p.a), self.get(st, p.b)
            self.put(st, p.a, ite(p.c, v, oa)); self.put(st, p.b, ite(p.c, self.get(st, p.b), v) if p.b != p.a else v); return
        if not isinstance(p, Ptr): raise Unsupported('write to conditional buffer')
        store(self.w.cx, st, Ptr(p.r, GH), v, DOUBLE)
    def val(self, p, st=None): return self.get(st or self.w.st, p)
    def time(self, st=None): return load(self.w.cx, st or self.w.st, self.ti, DOUBLE)
    def set_time(self, st, t): store(self.w.cx, st, self.ti, t, DOUBLE)
    def step(self, st=None): return load(self.w.cx, st or self.w.st, self.sp, I64)
    def count(self, st=None): return load(self.w.cx, st or self.w.st, self.cc, I64)
    # ---- contracts
    def c_ps(self, c): return self.ps
    def c_gety(self, c): return self.y
    def c_adv(self, c, dt):
        d = load(c.cx, c.st, dt, DOUBLE)
        store(c.cx, c.st, self.ti, add(self.time(c.st), d), DOUBLE); store(c.cx, c.st, self.sp, add(self.step(c.st), I(1)), I64)
    def c_gett(self, c): return self.time(c.st)
    def c_sett(self, c, t): store(c.cx, c.st, self.ti, t, DOUBLE)
    def c_getstep(self, c): return self.step(c.st)
    def c_setstep(self, c, s): store(c.cx, c.st, self.sp, s, I64)
    def c_f(self, c, t, y, f):
        self.ok(c, y, f)
        if isinstance(y, Ptr) and isinstance(f, Ptr): c.cx.oblige('pre', 'derivative not computed in place at ' + c.where, c.st, B(y.r is not f.r))
        self.put(c.st, f, F(load(c.cx, c.st, t, DOUBLE), self.get(c.st, y, 'fcompute')))
        self.fargs.append((load(c.cx, c.st, t, DOUBLE), self.get(c.st, y, 'fcompute')))
        store(c.cx, c.st, self.cc, add(self.count(c.st), I(1)), I64)
    def c_new(self, c, size):
        c.cx.oblige('pre', 'buffer of exactly the problem size requested at ' + c.where, c.st, eq(canon_u(c.cx, c.st, size, 64), mul(self.ps, I(8))))
        r = Region('buf@' + c.where, None, None, {'buf': True})
        c.st.mem[r.id] = (('C', {GH: (fresh('junk', 'R'), 8)}),)
        self.bufs.append(r)
        return Ptr(r, 0)
    def c_free(self, c, p): return None
    def c_copy(self, c, a, b): self.ok(c, a, b); self.put(c.st, a, self.get(c.st, b, 'copy'))
    def c_fill(self, c, a, v): self.ok(c, a); self.put(c.st, a, load(c.cx, c.st, v, DOUBLE))
    def c_fmi(self, c, a, b, k):
        self.ok(c, a, b)
        self.put(c.st, a, add(self.get(c.st, a, 'fmadd'), mul(self.get(c.st, b, 'fmadd'), load(c.cx, c.st, k, DOUBLE))))
    def c_fm(self, c, a, b, cc, d):
        self.ok(c, a, b, cc)
        self.put(c.st, a, add(self.get(c.st, b, 'fmadd'), mul(self.get(c.st, cc, 'fmadd'), load(c.cx, c.st, d, DOUBLE))))
    def lin(self, c, vec, co, n):
        k = cval(n)
        if k is None: raise Unsupported('linear combination of a symbolic number of terms at ' + c.where)
        k = int(k)
        b, e = vec_parts(c.cx, c.st, vec)
        nb = exact_div(pdiff(c.cx, c.st, e, b), 8)
        c.cx.oblige('pre', 'not more coefficients than vectors at ' + c.where, c.st, le(I(k), nb))
        if k and isinstance(co, NullT): c.cx.oblige('pre', 'coefficients exist at ' + c.where, c.st, FALSE)
        s = R(0); cs = []
        for i in range(k):
            q = load(c.cx, c.st, padd(co, I(8 * i)), DOUBLE); cs.append(q)
            p = load(c.cx, c.st, padd(b, I(8 * i)), PTR)
            if q is R(0): continue
            s = add(s, mul(self.get(c.st, p, 'linear combination'), q))
        return s, cs
    def c_fni(self, c, a, vec, co, n):
        self.ok(c, a); s, cs = self.lin(c, vec, co, n); self.put(c.st, a, add(self.get(c.st, a), s))
    def c_corr(self, c, a, r, vec, co, n):
        """Kahan: in exact arithmetic a' = a - r + sum and the carried error becomes 0 (C03) once a term is added;
        with self.round the sum gets an arbitrary rounding error, which is what is carried"""
        self.ok(c, a, r); s, cs = self.lin(c, vec, co, n)
        rv = self.get(c.st, r)
        z = and_(*[eq(q, R(0)) for q in cs])
        if z is not TRUE and z is not FALSE and c.cx.pv.valid(c.st.hyps(), not_(z)): z = FALSE
        e = R(0)
        if self.round: e = fresh('eps', 'R'); self.eps.append(e)
        self.put(c.st, a, ite(z, self.get(c.st, a), add(add(sub(self.get(c.st, a), rv), s), e)))
        self.put(c.st, r, ite(z, rv, e))
    def c_fn(self, c, a, b, vec, co, n):
        self.ok(c, a); s, cs = self.lin(c, vec, co, n)
        if isinstance(b, NullT): self.put(c.st, a, s)
        else:
            c.cx.oblige('pre', 'linear combination with a base has a non-zero coefficient at ' + c.where, c.st, or_(*[ne(q, R(0)) for q in cs]))
            self.put(c.st, a, add(self.get(c.st, b), s))
    def c_max(self, c, a, res):
        self.ok(c, a); v = norm(self.get(c.st, a)); c.st.fact(ge(v, R(0)))
        store(c.cx, c.st, res, v, DOUBLE)
    def c_clamp(self, c, y, b): self.put(c.st, y, app('CL', [self.get(c.st, y), b], 'R'))
    def c_getdata(self, c, d): self.calls.append('get_data')

    def rounding(self, v, exact):
        """the rounding error by which v differs from the exact value, if it is a single one"""
        d = sub(v, exact)
        if d is R(0): return d
        return next((e for e in self.eps if e is d), None)

I64 = Ty('int', 64)
def solver(w, ae, cls, args=()):
    s = w.ctor(cls, args)
    w.call1('nbody_solver::set_engine(nbody_engine*)', [s, ae.e])
    return s
def advise(w, s, cls, dt):
    r = w.call(w.vfn(cls, 'advise'), [s, dt])
    if len(r) == 1: w.st = r[0][0]; return
    st = r
    raise Unsupported('%s::advise: %d outcomes that do not merge' % (cls, len(r)))
