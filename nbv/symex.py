"""VC generator: symbolic execution of LLVM IR with loop summaries and contracts.

Functions without a contract are executed in place (their body is their contract);
functions with a contract are replaced by it at call sites and verified separately.
Loops are closed by induction: the generator derives a closed form for every
loop-carried location (affine, sum, max, pointwise array update) from one generic
iteration; a loop it cannot close raises Unsupported (never guessed).
"""
import re, itertools
from .ir import *
from .terms import *
from . import terms as tm
from .prove import Prover, Result, top_ites, replace_cond

class Infeasible(Exception): pass
class VerifErr(Exception):
    """a hard obligation failed in a way that execution cannot go on"""

_rid = itertools.count(1)
REG = {}

class Region:
    def __init__(self, name, size=None, base=None, meta=None, es=None, private=False):
        self.id = next(_rid); self.name = name; self.size = size; self.base = base
        self.meta = meta or {}; self.es = es
        REG[self.id] = self
    def __repr__(self): return '<%s#%d>' % (self.name, self.id)

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o=0):
        self.r = r; self.o = I(o)
    def __repr__(self): return '&%s+%s' % (self.r, self.o)
    def key(self): return (self.r.id, self.o)

class NullT:
    def __repr__(self): return 'NULL'
NULL = NullT()
class UndefT:
    def __repr__(self): return 'undef'
UNDEF = UndefT()

class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'fn:' + self.name

class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return 'pite(%s,%s,%s)' % (self.c, self.a, self.b)

class Opaque:
    """a value the verifier does not interpret (Qt objects, iterators of foreign types...)"""
    def __init__(self, what): self.what = what
    def __repr__(self): return 'opaque(%s)' % self.what

def is_ptr(v): return isinstance(v, (Ptr, NullT, PIte, Fn))

def ptr_eq(a, b):
    if isinstance(a, PIte): return ite(a.c, ptr_eq(a.a, b), ptr_eq(a.b, b))
    if isinstance(b, PIte): return ptr_eq(b, a)
    if a is b: return TRUE
    if isinstance(a, NullT) or isinstance(b, NullT):
        x = b if isinstance(a, NullT) else a
        if isinstance(x, Ptr) and x.r.meta.get('maybe_null') is not None: return x.r.meta['maybe_null']
        return FALSE
    if isinstance(a, Fn) and isinstance(b, Fn): return B(a.name == b.name)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r is b.r: return eq(a.o, b.o)
        return FALSE
    raise Unsupported('pointer comparison %r %r' % (a, b))

def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == b.sort: return ite(c, a, b)
        raise Unsupported('merge of sorts %s %s' % (a.sort, b.sort))
    if isinstance(a, UndefT) and isinstance(b, T): return ite(c, fresh('undef', b.sort), b)
    if isinstance(b, UndefT) and isinstance(a, T): return ite(c, a, fresh('undef', a.sort))
    if isinstance(a, UndefT) or isinstance(b, UndefT):
        if is_ptr(a) or is_ptr(b): return PIte(c, a, b)
        return b if isinstance(a, UndefT) else a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
        return Ptr(a.r, ite(c, a.o, b.o))
    if isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name: return a
    if is_ptr(a) and is_ptr(b): return PIte(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a
    if hasattr(a, 'merge') and type(a) is type(b):
        return a.merge(c, b)
    raise Unsupported('merge %r / %r' % (a, b))

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r is b.r and a.o is b.o
    if isinstance(a, Fn) and isinstance(b, Fn): return a.name == b.name
    if isinstance(a, PIte) and isinstance(b, PIte): return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Opaque) and isinstance(b, Opaque): return True
    return False

class State:
    __slots__ = ('mem', 'pc', 'facts', 'ghost', 'omp')
    def __init__(self):
        self.mem = {}; self.pc = (); self.facts = (); self.ghost = {}; self.omp = None
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.pc = self.pc; s.facts = self.facts
        s.ghost = dict(self.ghost); s.omp = self.omp
        return s
    def hyps(self): return self.facts + self.pc
    def assume(self, c):
        if c is TRUE or c in self.pc: return self
        self.pc = self.pc + (c,); return self
    def fact(self, c):
        if c is TRUE or c in self.facts: return self
        self.facts = self.facts + (c,); return self

class Frame:
    __slots__ = ('fn', 'env', 'depth')
    def __init__(self, fn, env, depth): self.fn = fn; self.env = env; self.depth = depth

class Obl:
    __slots__ = ('kind', 'name', 'res', 'goal', 'hyps', 'loc')

class Ctx:
    """one verification task"""
    def __init__(self, mod, prover=None):
        self.m = mod; self.pv = prover or Prover()
        self.contracts = {}        # mangled or demangled-base name -> callable
        self.models = []           # (regex, callable)
        self.obls = []; self.mute = 0
        self.unroll = 24; self.max_unroll_total = 200000
        self.divcheck = False; self.boundcheck = True
        self.assumptions = set(); self.inlined = set(); self.called_models = set()
        self.globals = {}
        self.track = []            # stack of read/write logs (for OpenMP loops)
        self.loop_inv = {}         # (function base name, loop ordinal) -> callable
        self.int_default = {}
        self.stat_loops = 0; self.stat_par = 0
        self.on_parallel = None
        self.seen_obl = {}
        self.fpmode = 'real'
        self.dyn_types = {}
        self.call_depth_limit = 60
        self.trip_hint = None
        self.deadline = None
        self.mode_strict_canon = True
        self.sum_flat = True; self.loop_seed = {}
    # ------------------------------------------------------------ obligations
    def oblige(self, kind, name, st, goal, extra=()):
        if self.mute: return True
        hyps = list(st.facts) + list(st.pc) + list(extra)
        key = (kind, name, goal, frozenset(hyps))
        if key in self.seen_obl: return self.seen_obl[key]
        r = self.pv.prove(hyps, goal)
        o = Obl(); o.kind = kind; o.name = name; o.res = r; o.goal = goal; o.hyps = hyps; o.loc = None
        self.obls.append(o)
        self.seen_obl[key] = bool(r)
        return bool(r)
    def decide(self, st, c):
        if c is TRUE: return True
        if c is FALSE: return False
        for h in st.pc:
            if h is c: return True
        nc = not_(c)
        for h in st.pc:
            if h is nc: return False
        from .prove import _has_real
        if _has_real(c):
            if not linear(c): return None
            return self.pv.decide([h for h in st.hyps() if linear(h)], c, 300)
        return self.pv.decide(st.hyps(), c)
    def feasible(self, st, c):
        return self.pv.check([h for h in st.hyps()], c, 1500) != 'unsat'

    # ------------------------------------------------------------ names
    def dem(self, n): return self.m.dem.get(n, n)
    def find(self, demname):
        """mangled names whose demangled form equals / starts with the given text"""
        out = [k for k, v in self.m.dem.items() if v == demname and k in self.m.funcs]
        if not out:
            out = [k for k, v in self.m.dem.items() if v.startswith(demname + '(') and k in self.m.funcs]
        return out
    def fn(self, demname):
        f = self.find(demname)
        if not f:
            raise Unsupported('function %s not found in the extracted code' % demname)
        f.sort(key=lambda n: (('D0' in n), n))
        return f[0]

_lin = {}
def linear(t):
    """no products of non-constant reals, no roots, no binders"""
    r = _lin.get(t)
    if r is None:
        if t.op == 'poly': r = all((t.sort == 'I' or (sum(e for a, e in m) <= 1 and all(e == 1 for a, e in m))) and all(linear(a) for a, e in m) for m, c in t.args[0])
        elif t.op in ('sqrt', 'inv', 'sum', 'maxred', 'all', 'inv0'): r = False
        else: r = all(linear(a) for a in t.args if isinstance(a, T))
        _lin[t] = r
    return r

# ---------------------------------------------------------------- integer canonicalisation
def canon_u(cx, st, x, bits, where=''):
    k = cval(x)
    if k is not None: return const(k % (1 << bits), 'I')
    if cx.mute_canon_ok(st, x, 0, 1 << bits, where): return x
    return imod(x, I(1 << bits))

def canon_s(cx, st, x, bits, where=''):
    k = cval(x)
    if k is not None:
        k = k % (1 << bits)
        if k >= 1 << (bits - 1): k -= 1 << bits
        return const(k, 'I')
    h = 1 << (bits - 1)
    if cx.mute_canon_ok(st, x, -h, h, where): return x
    y = imod(x, I(1 << bits))
    return ite(ge(y, I(h)), sub(y, I(1 << bits)), y)

def _mco(self, st, x, lo, hi, where):
    if self.mute_canon: return True
    return self.pv.valid(st.hyps(), and_(ge(x, I(lo)), lt(x, I(hi))), 2000)
Ctx.mute_canon_ok = _mco
Ctx.mute_canon = 0

# ---------------------------------------------------------------- memory
def default_base(name):
    def base(cx, st, off, ty, size):
        k = ty.k
        if k in ('double', 'float'):
            es = size
            return app(name, [exact_div(off, es)], 'R')
        if k == 'int':
            if ty.a == 1:
                t = app(name + '.b', [off], 'I'); return ne(t, I(0))
            t = app('%s.i%d' % (name, ty.a), [exact_div(off, size)], 'I')
            if ty.a == 32:
                st.fact(and_(ge(t, I(-(1 << 31))), lt(t, I(1 << 31))))
            else:
                st.fact(and_(ge(t, I(0)), lt(t, I(1 << ty.a))))
            return t
        raise Unsupported('read of unmodelled %r at %s+%s' % (ty, name, off))
    return base

def exact_div(off, es):
    it = {}
    for m, c in items(off):
        if (c / es).denominator != 1: raise Unsupported('misaligned access at %s (element %d)' % (off, es))
        it[m] = c / es
    return tm._poly(it, 'I')

def uninit_base(name):
    def base(cx, st, off, ty, size):
        return UNDEF
    return base

def div_ok(off, s):
    return all((c / s).denominator == 1 for m, c in items(off))

def solve_affine(e, kv, off):
    """solve e(kv) == off for the bound variables kv = [(var polynomial, N)], mixed radix.
    returns (subst map, range condition) or FALSE when impossible, or None when not solvable"""
    vs = [as_atom(v) for v, _ in kv]
    coefs = {}
    rest = {}
    for m, c in items(e):
        hit = [a for a, x in m if a in vs]
        if not hit:
            if any(set(vs) & fv(a) for a, x in m): return None
            rest[m] = c
        else:
            if len(m) != 1 or m[0][1] != 1: return None
            coefs[m[0][0]] = c
    if any(v not in coefs for v in vs):
        return None
    d = sub(off, tm._poly(rest, 'I'))
    order = sorted(zip(vs, [n for _, n in kv]), key=lambda x: -abs(coefs[x[0]]))
    if any(coefs[v] <= 0 for v in vs):
        if len(vs) == 1 and coefs[vs[0]] < 0:
            d = neg(d); coefs[vs[0]] = -coefs[vs[0]]
        else: return None
    # smallest stride
    s0 = coefs[order[-1][0]]
    # residue
    if not div_ok(d, s0):
        non = {m: c for m, c in items(d) if (c / s0).denominator != 1}
        if all(m == () for m in non): return FALSE
        return None
    d = exact_div(d, s0)
    mp = {}; cond = TRUE
    cur = d
    for idx, (v, n) in enumerate(order):
        s = coefs[v] / s0
        if idx == len(order) - 1:
            mp[v] = cur
            cond = and_(cond, ge(cur, I(0)), lt(cur, n))
        else:
            # remaining inner span must equal s
            span = I(1)
            for w, nn in order[idx+1:]:
                pass
            w, nn = order[idx+1]
            inner = mul(nn, const(coefs[w] / s0, 'I'))
            if cval(inner) is None or cval(inner) != s: return None
            q = idiv(cur, const(s, 'I'))
            mp[v] = q
            cond = and_(cond, ge(cur, I(0)), lt(q, n))
            cur = imod(cur, const(s, 'I'))
    return mp, cond

class Mem:
    """loads and stores over region logs; entries:
       ('C', {off:(val,size)})  ('S', off, size, val, cond)  ('M', kvars, off, size, val, cond)
       ('X', fn(cx,st,off,ty,size)->val|None)"""

def check_bounds(cx, st, p, size, what):
    r = p.r
    if not cx.boundcheck or r.size is None or cx.mute: return
    c = cval(p.o)
    sz = cval(r.size) if isinstance(r.size, T) else r.size
    if c is not None and sz is not None and 0 <= c and c + size <= sz: return
    cx.oblige('bounds', '%s in bounds of %s' % (what, r.name), st,
              and_(ge(p.o, I(0)), le(add(p.o, I(size)), I(r.size))))

def load(cx, st, p, ty, what='load'):
    if isinstance(p, PIte):
        v = cx.decide(st, p.c)
        if v is True: return load(cx, st, p.a, ty, what)
        if v is False: return load(cx, st, p.b, ty, what)
        s1 = st.copy().assume(p.c); s2 = st.copy().assume(not_(p.c))
        a = load(cx, s1, p.a, ty, what); b = load(cx, s2, p.b, ty, what)
        for f in s1.facts + s2.facts: st.fact(f)
        return vite(p.c, a, b)
    if isinstance(p, NullT):
        cx.oblige('null', '%s through a null pointer' % what, st, FALSE)
        raise Infeasible()
    if isinstance(p, Opaque): return Opaque(p.what + '.*')
    if isinstance(p, UndefT):
        cx.oblige('undef', '%s through an uninitialised pointer' % what, st, FALSE)
        raise Infeasible()
    if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
    q = split_offset(p)
    if q is not None: return load(cx, st, q, ty, what)
    rt = cx.m.resolve(ty)
    if rt.k in ('struct', 'arr', 'vec'):
        out = []
        if rt.k == 'struct':
            for i in range(len(rt.a[0])):
                o, ft = cx.m.field_off(rt, i)
                out.append(load(cx, st, Ptr(p.r, add(p.o, I(o))), ft, what))
        else:
            es = cx.m.sizeof(rt.a[1])
            for i in range(rt.a[0]):
                out.append(load(cx, st, Ptr(p.r, add(p.o, I(i * es))), rt.a[1], what))
        return tuple(out)
    size = cx.m.sizeof(ty)
    check_bounds(cx, st, p, size, what)
    for tr in cx.track:
        tr.append(('r', p.r, p.o, size, st.hyps(), what, rt))
    return _read(cx, st, p.r, len(log(st, p.r)) - 1, p.o, rt, size)

def split_offset(p):
    """a pointer whose offset is chosen by a condition, as a choice of pointers"""
    if not is_poly(p.o) or len(items(p.o)) > 6: return None
    for m, c in items(p.o):
        for a, e in m:
            if isinstance(a, T) and a.op == 'ite' and (cval(a.args[1]) is None or cval(a.args[2]) is None):
                return PIte(a.args[0], Ptr(p.r, subst(p.o, {a: a.args[1]})), Ptr(p.r, subst(p.o, {a: a.args[2]})))
    return None

def log(st, r): return st.mem.get(r.id, ())

def typed(cx, v, ty):
    """reinterpret between i64/double/ptr cells only when the kind agrees"""
    k = ty.k
    if isinstance(v, UndefT): return v
    if k == 'int':
        if isinstance(v, T):
            if ty.a == 1: return v if v.sort == 'B' else ne(v, I(0))
            if v.sort == 'I': return v
            if v.sort == 'B': return ite(v, I(1), I(0))
            if v.sort == 'R' and cval(v) == 0: return I(0)
        if isinstance(v, NullT): return I(0)
    elif k in ('double', 'float'):
        if isinstance(v, T) and v.sort == 'R': return v
        if isinstance(v, T) and v.sort == 'I' and cval(v) == 0: return R(0)
    elif k == 'ptr':
        if is_ptr(v) or isinstance(v, Opaque): return v
        if isinstance(v, T) and cval(v) == 0: return NULL
    if isinstance(v, (Opaque, tuple)): return v
    if not isinstance(v, T): return v
    raise Unsupported('type punning: %r read as %r' % (v, ty))

def _read(cx, st, r, i, off, ty, size):
    lg = log(st, r)
    while i >= 0:
        e = lg[i]
        if e[0] == 'C':
            k = cval(off)
            if k is not None:
                h = e[1].get(int(k))
                if h is not None:
                    if h[1] == size: return typed(cx, h[0], ty)
                    if ty.k == 'int' and isinstance(h[0], T) and h[0].sort == 'I' and size < h[1]:
                        return imod(h[0], I(1 << (8 * size)))   # little endian low part
                    raise Unsupported('partial access of %s+%s' % (r.name, off))
                if len(e[1]) < 400:
                    for o, (v, s) in e[1].items():
                        if o < k + size and k < o + s:
                            raise Unsupported('overlapping access %s+%s size %d' % (r.name, off, size))
            else:
                hits = []
                for o, (v, s) in sorted(e[1].items()):
                    d = sub(off, I(o))
                    if s == size and not div_ok_res(d, size): continue
                    c = eq(off, I(o))
                    dd = cx.decide(st, c)
                    if dd is False: continue
                    if dd is True: return typed(cx, v, ty)
                    hits.append((c, v))
                if len(hits) > 80: raise Unsupported('symbolic read over %d cells of %s' % (len(hits), r.name))
                if hits:
                    try:
                        rest = _read(cx, st, r, i - 1, off, ty, size)
                    except Unsupported:
                        rest = UNDEF
                    for c, v in reversed(hits): rest = vite(c, typed(cx, v, ty), rest)
                    return rest
        elif e[0] == 'S':
            c = eq(off, e[1])
            d = cx.decide(st, c)
            if d is None and e[2] == size and not div_ok_res(sub(off, e[1]), size): d = False
            if d is not False and e[2] != size: raise Unsupported('size mismatch read of %s' % r.name)
            if d is True and e[4] is TRUE: return typed(cx, e[3], ty)
            if d is not False:
                c = e[4] if d is True else and_(c, e[4])
                dd = cx.decide(st, c)
                if dd is True: return typed(cx, e[3], ty)
                if dd is None:
                    return vite(c, typed(cx, e[3], ty), _read(cx, st, r, i - 1, off, ty, size))
        elif e[0] == 'M':
            sv = solve_affine(e[2], e[1], off)
            if sv is None:
                # prove disjointness for a generic instance
                mp = {as_atom(v): fresh('m', 'I') for v, n in e[1]}
                cond = and_(*[and_(ge(mp[as_atom(v)], I(0)), lt(mp[as_atom(v)], subst(n, mp))) for v, n in e[1]] + [subst(e[5], mp)])
                o2 = subst(e[2], mp)
                if cx.pv.valid(st.hyps() + (cond,), or_(le(add(off, I(size)), o2), le(add(o2, I(e[3])), off))):
                    i -= 1; continue
                raise Unsupported('cannot resolve read of %s+%s against a loop write at %s' % (r.name, off, e[2]))
            if sv is not FALSE:
                mp, rc = sv
                cond = and_(rc, subst(e[5], mp))
                d = cx.decide(st, cond)
                if d is not False:
                    if e[3] != size: raise Unsupported('size mismatch read of %s' % r.name)
                    v = vsubst(e[4], mp)
                    if d is True: return typed(cx, v, ty)
                    return vite(cond, typed(cx, v, ty), _read(cx, st, r, i - 1, off, ty, size))
        elif e[0] == 'X':
            v = e[1](cx, st, off, ty, size)
            if v is not None: return v
        i -= 1
    if r.base is None:
        return garbage(r, off, ty, size)
    return r.base(cx, st, off, ty, size)

def garbage(r, off, ty, size):
    """uninitialised memory: arbitrary but fixed contents"""
    if ty.k in ('double', 'float'): return app('undef%d' % r.id, [off], 'R')
    if ty.k == 'int':
        if ty.a == 1: return mk('app', ('undefb%d' % r.id, off), 'B')
        return imod(app('undefi%d_%d' % (r.id, size), [off], 'I'), I(1 << ty.a))
    return UNDEF

def div_ok_res(d, s):
    """False when d is certainly not 0 because of its residue modulo s"""
    non = {m: c for m, c in items(d) if (c / s).denominator != 1}
    if non and all(m == () for m in non): return False
    return True

def vsubst(v, mp):
    if isinstance(v, T): return subst(v, mp)
    if isinstance(v, Ptr):
        r = v.r
        if r.meta.get('fam'):
            f, k = r.meta['fam']
            k2 = subst(k, mp)
            if k2 is not k: r = f(k2)
        return Ptr(r, subst(v.o, mp))
    if isinstance(v, PIte): return PIte(subst(v.c, mp), vsubst(v.a, mp), vsubst(v.b, mp))
    if isinstance(v, tuple): return tuple(vsubst(x, mp) for x in v)
    if hasattr(v, 'subst'): return v.subst(mp)
    return v

def store(cx, st, p, v, ty, what='store', cond=TRUE):
    if isinstance(p, PIte):
        d = cx.decide(st, p.c)
        if d is True: return store(cx, st, p.a, v, ty, what, cond)
        if d is False: return store(cx, st, p.b, v, ty, what, cond)
        if not isinstance(p.a, NullT): store(cx, st, p.a, v, ty, what, and_(cond, p.c))
        if not isinstance(p.b, NullT): store(cx, st, p.b, v, ty, what, and_(cond, not_(p.c)))
        if isinstance(p.a, NullT) or isinstance(p.b, NullT):
            cx.oblige('null', '%s through a null pointer' % what, st, p.c if isinstance(p.b, NullT) else not_(p.c))
        return
    if isinstance(p, NullT):
        cx.oblige('null', '%s through a null pointer' % what, st, not_(cond))
        if cond is TRUE: raise Infeasible()
        return
    if isinstance(p, Opaque): return
    if isinstance(p, UndefT):
        cx.oblige('undef', '%s through an uninitialised pointer' % what, st, not_(cond))
        if cond is TRUE: raise Infeasible()
        return
    if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
    rt = cx.m.resolve(ty)
    if rt.k in ('struct', 'arr', 'vec'):
        if not isinstance(v, tuple): raise Unsupported('aggregate store of %r' % (v,))
        for i, x in enumerate(v):
            if rt.k == 'struct': o, ft = cx.m.field_off(rt, i)
            else: o, ft = i * cx.m.sizeof(rt.a[1]), rt.a[1]
            store(cx, st, Ptr(p.r, add(p.o, I(o))), x, ft, what, cond)
        return
    size = cx.m.sizeof(ty)
    check_bounds(cx, st, p, size, what)
    for tr in cx.track:
        tr.append(('w', p.r, p.o, size, st.hyps() + ((cond,) if cond is not TRUE else ()), what, rt))
    if p.r.meta.get('const'):
        cx.oblige('frame', '%s modifies read-only %s' % (what, p.r.name), st, FALSE)
    raw_store(cx, st, p.r, p.o, size, v, cond)

def raw_store(cx, st, r, off, size, v, cond=TRUE):
    lg = log(st, r)
    k = cval(off)
    if r.meta.get('fam') and not r.meta.get('fam_write'): raise Unsupported('write to family region %s' % r.name)
    if k is not None and cond is TRUE:
        if lg and lg[-1][0] == 'C':
            d = dict(lg[-1][1])
            _evict(d, int(k), size)
            d[int(k)] = (v, size)
            st.mem[r.id] = lg[:-1] + (('C', d),)
        else:
            st.mem[r.id] = lg + (('C', {int(k): (v, size)}),)
    else:
        st.mem[r.id] = lg + (('S', off, size, v, cond),)

def _evict(d, k, size):
    if k in d and d[k][1] == size: return
    for o in [o for o, (v, s) in d.items() if o < k + size and k < o + s]:
        if o >= k and o + d[o][1] <= k + size: del d[o]
        else: raise Unsupported('partial overwrite')

# ---------------------------------------------------------------- merging
def merge_states(cx, s1, s2):
    """merge two states; returns (state, c1) with c1 the condition selecting s1; None if impossible"""
    n = 0
    while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]: n += 1
    c1 = and_(*s1.pc[n:]); c2 = and_(*s2.pc[n:])
    if c1 is TRUE and c2 is TRUE: c1 = TRUE
    st = State(); st.pc = s1.pc[:n]
    o = or_(c1, c2)
    if o is not TRUE and c2 is not not_(c1):
        st.pc = st.pc + (o,)
    if s1.facts == s2.facts: st.facts = s1.facts
    else:
        f1 = set(s1.facts); f2 = set(s2.facts)
        fs = [f for f in s1.facts if f in f2]
        for f in s1.facts:
            if f not in f2: fs.append(f if harmless(f) else implies(c1, f))
        for f in s2.facts:
            if f not in f1: fs.append(f if harmless(f) else implies(c2, f))
        st.facts = tuple(fs)
    # selector: prefer the smaller one
    sel = c1; swap = False
    try:
        for k in set(s1.mem) | set(s2.mem):
            a = s1.mem.get(k); b = s2.mem.get(k)
            if a is b: st.mem[k] = a; continue
            if a is None or b is None:
                # uninitialised memory (reading it is undefined) takes the written contents; anything with
                # contents of its own is merged against them
                if REG[k].base is None: st.mem[k] = a if a is not None else b; continue
                a = a or (); b = b or ()
            st.mem[k] = merge_log(a, b, c1, c2)
        st.ghost = {}
        for k in set(s1.ghost) | set(s2.ghost):
            if k in s1.ghost and k in s2.ghost:
                x, y = s1.ghost[k], s2.ghost[k]
                st.ghost[k] = x if (x is y or x == y) else gmerge(c1, x, y)
            else:
                return None
    except Unsupported:
        return None
    st.omp = s1.omp or s2.omp
    return st, c1

def gmerge(c, x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y): raise Unsupported('ghost merge')
        return {k: (x[k] if (x[k] is y[k] or x[k] == y[k]) else gmerge(c, x[k], y[k])) for k in x}
    if isinstance(x, (list, tuple)) : raise Unsupported('ghost merge')
    return vite(c, x, y)

def harmless(f):
    """facts about uninterpreted inputs that hold unconditionally (range facts from loads)"""
    return True

def merge_log(a, b, c1, c2):
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]: n += 1
    pre = a[:n]; x = a[n:]; y = b[n:]
    # common case: last cell maps
    if len(x) <= 1 and len(y) <= 1 and all(e[0] == 'C' for e in x + y):
        dx = x[0][1] if x else {}; dy = y[0][1] if y else {}
        if dx.keys() == dy.keys():
            d = {}
            for k in dx:
                if same(dx[k][0], dy[k][0]): d[k] = dx[k]
                else:
                    if dx[k][1] != dy[k][1]: raise Unsupported('merge size')
                    d[k] = (vite(c1, dx[k][0], dy[k][0]), dx[k][1])
            return pre + (('C', d),)
        common = {k: dx[k] for k in dx if k in dy and dx[k][1] == dy[k][1]}
        d = {k: (dx[k] if same(dx[k][0], dy[k][0]) else (vite(c1, dx[k][0], dy[k][0]), dx[k][1])) for k in common}
        out = pre
        for src, c in ((dx, c1), (dy, c2)):
            for k, (v, s) in src.items():
                if k not in common:
                    out = out + (('S', I(k), s, v, c),)
        return out + ((('C', d),) if d else ())
    return pre + tuple(guard(e, c1) for e in expand(x)) + tuple(guard(e, c2) for e in expand(y))

def expand(es):
    for e in es:
        if e[0] == 'C':
            for k, (v, s) in e[1].items(): yield ('S', I(k), s, v, TRUE)
        else: yield e

def guard(e, c):
    if e[0] == 'S': return ('S', e[1], e[2], e[3], and_(e[4], c))
    if e[0] == 'M': return ('M', e[1], e[2], e[3], e[4], and_(e[5], c))
    raise Unsupported('guarded havoc')

# ---------------------------------------------------------------- executor
class Exec:
    def __init__(self, cx):
        self.cx = cx
        self.m = cx.m
        self.stack = []
    # ---------- operands
    def glob(self, name, st):
        cx = self.cx
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls: return Fn(name)
        r = cx.globals.get(name)
        if r is None:
            if name not in self.m._gtext: return Fn(name)
            t, v, const_ = self.m.global_init(name)
            r = Region('@' + name, None, None, {'global': name})
            if v is None:
                r.base = self._ext_global(name)
            else:
                try: r.size = I(self.m.sizeof(t))
                except Unsupported: pass
                cells = {}
                self._flat(t, v, 0, cells)
                r.meta['init'] = cells
                def base(cx_, st_, off, ty, size, cells=cells, r=r):
                    k = cval(off)
                    if k is None:
                        hit = sorted(o for o in cells if cells[o][1] == size)
                        if 0 < len(hit) <= 2000:
                            rest = None
                            for o in reversed(hit):
                                val = typed(cx_, self.val(cells[o][2], cells[o][0], None, st_), ty)
                                rest = val if rest is None else vite(eq(off, I(o)), val, rest)
                            return rest
                        raise Unsupported('symbolic read of global %s' % r.name)
                    h = cells.get(int(k))
                    if h is None:
                        # zero-initialised area
                        for o, (v_, s_, t_) in cells.items():
                            if v_ == ('zero',) and o <= k < o + s_:
                                return zero_of(ty)
                        for o, (v_, s_, t_) in cells.items():
                            if v_[0] == 'cstr' and o <= k and k + size <= o + s_:
                                b = v_[1][int(k) - o:int(k) - o + size]
                                return I(int.from_bytes(b, 'little'))
                        raise Unsupported('global %s+%s' % (r.name, k))
                    if h[0] == ('zero',): return zero_of(ty)
                    if h[0][0] == 'cstr':
                        return I(int.from_bytes(h[0][1][:size], 'little'))
                    return typed(cx_, self.val(h[2], h[0], None, st_), ty)
                r.base = base
            cx.globals[name] = r
        return Ptr(r, 0)
    def _ext_global(self, name):
        def base(cx, st, off, ty, size):
            if ty.k == 'ptr': return Opaque('@' + name)
            if ty.k == 'int': return app('ext_' + name, [off], 'I')
            raise Unsupported('external global ' + name)
        return base
    def _flat(self, t, v, o, cells):
        rt = self.m.resolve(t)
        if v[0] == 'cagg':
            for i, (et, ev) in enumerate(v[1]):
                if rt.k == 'struct': fo, ft = self.m.field_off(rt, i)
                else: fo, ft = i * self.m.sizeof(rt.a[1]), rt.a[1]
                self._flat(et, ev, o + fo, cells)
        else:
            cells[o] = (v, self.m.sizeof(t), t)
    def val(self, t, v, env, st):
        k = v[0]
        if k == 'reg':
            return env[v[1]]
        if k == 'int':
            if t.k == 'int' and t.a == 1: return B(v[1] != 0)
            return const(v[1], 'I')
        if k == 'fp': return const(v[1], 'R')
        if k == 'fpspec': return app('fp_' + v[1].replace('-', 'neg'), [], 'R')
        if k == 'fpraw': return self._fp80(v[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(t)
        if k == 'glob': return self.glob(v[1], st)
        if k == 'cagg': return tuple(self.val(et, ev, env, st) for et, ev in v[1])
        if k == 'cexpr':
            if v[1] == 'getelementptr':
                return self.gep(v[2], [(at, self.val(at, av, env, st)) for at, av in v[3]], st)
            if v[1] in ('bitcast', 'addrspacecast'): return self.val(v[2], v[3], env, st)
            if v[1] == 'inttoptr':
                x = self.val(v[2], v[3], env, st)
                if isinstance(x, T) and cval(x) == 0: return NULL
                return Opaque('inttoptr')
            if v[1] == 'ptrtoint':
                return PInt(self.val(v[2], v[3], env, st))
        raise Unsupported('operand %r' % (v,))
    def _fp80(self, tok):
        h = tok[3:]
        if tok[2] == 'K':
            b = int(h, 16); s = b >> 79; e = (b >> 64) & 0x7fff; mnt = b & ((1 << 64) - 1)
            val = Fraction(mnt) * Fraction(2) ** (e - 16383 - 63)
            return const(-val if s else val, 'R')
        raise Unsupported('fp constant ' + tok)
    def zero(self, t):
        t = self.m.resolve(t)
        if t.k == 'struct': return tuple(self.zero(f) for f in t.a[0])
        if t.k in ('arr', 'vec'): return tuple(self.zero(t.a[1]) for _ in range(t.a[0]))
        return zero_of(t)
    # ---------- gep
    def gep(self, bt, args, st):
        base = args[0][1]
        if isinstance(base, Opaque): return base
        off = I(0); t = bt
        def idx(i):
            it, iv = args[i]
            if isinstance(iv, UndefT): raise Unsupported('gep undef')
            if isinstance(iv, PInt): raise Unsupported('gep by pointer')
            b = it.a
            if b < 64:
                return canon_s(self.cx, st, iv, b)
            return signed_rep(self.cx, st, iv)
        off = mul(idx(1), I(self.m.sizeof(t))) if cval(args[1][1]) != 0 else I(0)
        for i in range(2, len(args)):
            rt = self.m.resolve(t)
            if rt.k == 'struct':
                j = int(cval(args[i][1])); o, t = self.m.field_off(rt, j)
                off = add(off, I(o))
            elif rt.k in ('arr', 'vec'):
                t = rt.a[1]; off = add(off, mul(idx(i), I(self.m.sizeof(t))))
            else: raise Unsupported('gep into %r' % rt)
        return padd(base, off)
    # ---------- running a function
    def call_function(self, name, args, st, depth):
        """inline execution; returns list of (state, retval)"""
        cx = self.cx
        f = self.m.funcs[name]; f.blocks
        if depth > cx.call_depth_limit: raise Unsupported('call depth (recursion) at ' + cx.dem(name))
        if self.stack.count(name) >= 3: raise Unsupported('recursion of ' + cx.dem(name))
        cx.inlined.add(name)
        env = {}
        for (t, pn, at), a in zip(f.params, args):
            env[pn] = a
        self.stack.append(name)
        try:
            outs = self.run(f, depth, f.entry, None, [(None, st, env)], None)
        finally:
            self.stack.pop()
        rets = [(s, e.get('$ret')) for d, p, s, e in outs if d == '$ret']
        return self.merge_rets(rets)
    def merge_rets(self, rets):
        while len(rets) > 1:
            done = False
            for i in range(len(rets)):
                for j in range(i + 1, len(rets)):
                    m = merge_states(self.cx, rets[i][0], rets[j][0])
                    if m is None: continue
                    try:
                        v = None if rets[i][1] is None else vite(m[1], rets[i][1], rets[j][1]) if not same(rets[i][1], rets[j][1]) else rets[i][1]
                    except Unsupported: continue
                    if isinstance(v, PIte) and self.cx.ghost_split: continue
                    rets = [r for k, r in enumerate(rets) if k not in (i, j)] + [(m[0], v)]
                    done = True; break
                if done: break
            if not done: break
        return rets
    def phis(self, f, blk, prev, env, st):
        b = f.blocks[blk]
        new = {}
        for i in b.insts:
            if i.op != 'phi': break
            for v, lab in i.a:
                if lab == prev:
                    new[i.res] = self.val(i.ty, v, env, st); break
            else:
                raise Unsupported('phi edge')
        if new:
            env = dict(env); env.update(new)
        return env
    def run(self, f, depth, start, prev0, init, region, skip_header_loop=False):
        """execute from block `start`; `region`: None (whole function) or (set of blocks, header)
        init: list of (prev, state, env). Returns outcomes [(dest, prev, state, env)]: dest is a
        block outside the region, the header (back edge), or '$ret'."""
        cx = self.cx
        pend = {}
        outs = []
        def push(dest, prev, st, env, first=False):
            if dest == '$ret' or (region is not None and (dest not in region[0] or (dest == region[1] and not first))):
                outs.append((dest, prev, st, env)); return
            if not (first and region is not None):
                env = self.phis(f, dest, prev, env, st) if prev is not None else env
            pend.setdefault(dest, []).append((prev, st, env))
        for p, s, e in init: push(start, p if p is not None else prev0, s, e, True)
        num = f.rponum
        while pend:
            blk = min(pend, key=lambda x: num[x])
            lst = pend.pop(blk)
            lst = self.merge_pending(lst)
            for prev, st, env in lst:
                if blk in f.loops and not (region is not None and blk == region[1]):
                    for dest, pr, s, e in self.do_loop(f, depth, blk, prev, st, env):
                        push(dest, pr, s, e)
                    continue
                try:
                    for dest, s, e in self.block(f, depth, blk, st, env):
                        push(dest, blk, s, e)
                except Infeasible:
                    pass
        return outs
    def merge_pending(self, lst):
        out = list(lst)
        ch = True
        while ch and len(out) > 1:
            ch = False
            for i in range(len(out)):
                for j in range(i + 1, len(out)):
                    m = merge_states(self.cx, out[i][1], out[j][1])
                    if m is None: continue
                    try:
                        env = merge_env(m[1], out[i][2], out[j][2])
                    except Unsupported:
                        continue
                    if env is None: continue
                    out = [x for k, x in enumerate(out) if k not in (i, j)] + [(out[i][0], m[0], env)]
                    ch = True; break
                if ch: break
        return out
    # ---------- one block
    def block(self, f, depth, blk, st, env):
        """yield (dest, state, env)"""
        cx = self.cx
        cur = [(st.copy(), dict(env))]
        b = f.blocks[blk]
        for ins in b.insts:
            if ins.op == 'phi': continue
            if ins.op in ('br', 'switch', 'ret', 'unreachable'):
                res = []
                for s, e in cur: res.extend(self.term(f, ins, s, e))
                return res
            if ins.op == 'call':
                nxt = []
                for s, e in cur:
                    for s2, v in self.do_call(f, depth, ins, s, e):
                        e2 = e if len(cur) == 1 and False else dict(e)
                        if ins.res is not None: e2[ins.res] = v
                        nxt.append((s2, e2))
                cur = nxt
                if len(cur) > 1:
                    mp = self.merge_pending([(blk, s, e) for s, e in cur])
                    cur = [(s, e) for _, s, e in mp]
                if not cur: return []
                continue
            nxt = []
            for s, e in cur:
                try:
                    self.inst(f, ins, s, e)
                    nxt.append((s, e))
                except Infeasible:
                    pass
            cur = nxt
            if not cur: return []
        raise Unsupported('block without terminator')
    def term(self, f, ins, st, env):
        cx = self.cx
        if ins.op == 'ret':
            if ins.a[0] is not None:
                env['$ret'] = self.val(ins.ty, ins.a[0], env, st)
            return [('$ret', st, env)]
        if ins.op == 'unreachable':
            return []
        if ins.op == 'br':
            if ins.a[0] is None: return [(ins.a[1], st, env)]
            c = self.val(I1, ins.a[0], env, st)
            if isinstance(c, UndefT): raise Unsupported('branch on undef in %s line %s' % (cx.dem(f.name), ins.line))
            if isinstance(c, Opaque): raise Unsupported('branch on opaque %s in %s line %s' % (c.what, cx.dem(f.name), ins.line))
            d = cx.decide(st, c)
            if d is True: return [(ins.a[1], st, env)]
            if d is False: return [(ins.a[2], st, env)]
            s2 = st.copy()
            return [(ins.a[1], st.assume(c), env), (ins.a[2], s2.assume(not_(c)), dict(env))]
        if ins.op == 'switch':
            v = self.val(ins.ty, ins.a[0], env, st)
            if isinstance(v, (UndefT, Opaque)): raise Unsupported('switch on %r' % v)
            out = []; cur = st
            for cv, lab in ins.a[2]:
                b = ins.ty.a
                c = eq(imod(v, I(1 << b)) if cval(v) is not None else v, const(cv[1] % (1 << b) if cval(v) is not None else cv[1], 'I'))
                d = cx.decide(cur, c)
                if d is False: continue
                if d is True:
                    out.append((lab, cur, dict(env))); cur = None; break
                s2 = cur.copy().assume(c); out.append((lab, s2, dict(env)))
                cur = cur.copy().assume(not_(c))
            if cur is not None: out.append((ins.a[1], cur, dict(env)))
            return out
    # ---------- instructions
    def inst(self, f, ins, st, env):
        cx = self.cx; op = ins.op
        V = lambda t, v: self.val(t, v, env, st)
        where = '%s:%s' % (short(cx.dem(f.name)), ins.line)
        if op == 'alloca':
            n = 1
            if ins.a[0] is not None:
                nv = V(*ins.a[0])
                n = nv
            sz = mul(I(n), I(self.m.sizeof(ins.ty))) if not isinstance(n, int) else I(self.m.sizeof(ins.ty))
            env[ins.res] = Ptr(Region('%' + ins.res, sz, None, {'alloca': True}), 0); return
        if op == 'load':
            env[ins.res] = load(cx, st, V(PTR, ins.a[0]), ins.ty, 'load at ' + where); return
        if op == 'store':
            store(cx, st, V(PTR, ins.a[1]), V(ins.ty, ins.a[0]), ins.ty, 'store at ' + where); return
        if op == 'getelementptr':
            env[ins.res] = self.gep(ins.ty, [(t, V(t, v)) for t, v in ins.a], st); return
        if op in BIN:
            env[ins.res] = self.binop(op, ins.ty, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]), st, where); return
        if op == 'fneg':
            a = V(ins.ty, ins.a[0]); env[ins.res] = fp1(cx, 'neg', a) if cx.fpmode != 'real' else self.rneg(a); return
        if op == 'icmp':
            env[ins.res] = self.icmp(ins.a[0], ins.ty, V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2]), st, where); return
        if op == 'fcmp':
            env[ins.res] = self.fcmp(ins.a[0], V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])); return
        if op in CAST:
            env[ins.res] = self.cast(op, ins.a[0], V(*ins.a), ins.ty, st, where); return
        if op == 'select':
            c = V(I1, ins.a[0]); a = V(ins.ty, ins.a[1]); b = V(ins.ty, ins.a[2])
            if isinstance(c, (UndefT, Opaque)): raise Unsupported('select on %r' % c)
            d = cx.decide(st, c)
            env[ins.res] = a if d is True else b if d is False else vite(c, a, b); return
        if op == 'extractvalue':
            v = V(ins.ty, ins.a[0])
            for i in ins.a[1]:
                if isinstance(v, Opaque): break
                v = v[i]
            env[ins.res] = v; return
        if op == 'insertvalue':
            v = V(ins.ty, ins.a[0]); x = self.val_any(ins, env, st)
            if isinstance(v, UndefT):
                rt = self.m.resolve(ins.ty); n = len(rt.a[0]) if rt.k == 'struct' else rt.a[0]
                v = tuple(UNDEF for _ in range(n))
            i = ins.a[2][0]
            env[ins.res] = v[:i] + (x,) + v[i+1:]; return
        if op == 'extractelement':
            v = V(ins.ty, ins.a[0]); i = int(cval(V(I64, ins.a[1]))); env[ins.res] = v[i]; return
        if op == 'insertelement':
            v = V(ins.ty, ins.a[0]); i = int(cval(V(I64, ins.a[2])))
            if isinstance(v, UndefT): v = tuple(UNDEF for _ in range(ins.ty.a[0]))
            x = self.val(ins.ty.a[1], ins.a[1], env, st)
            env[ins.res] = v[:i] + (x,) + v[i+1:]; return
        if op == 'freeze':
            env[ins.res] = V(ins.ty, ins.a[0]); return
        if op == 'atomicrmw':
            o, a, v = ins.a
            p = V(PTR, a); x = V(ins.ty, v)
            old = load(cx, st, p, ins.ty, where)
            new = {'add': add, 'sub': sub}.get(o)
            if o == 'xchg': nv = x
            elif new is None: raise Unsupported('atomicrmw ' + o)
            else: nv = new(old, x)
            store(cx, st, p, nv, ins.ty, where); env[ins.res] = old; return
        raise Unsupported('instruction %s' % op)
    def val_any(self, ins, env, st):
        v = ins.a[1]
        if v[0] == 'reg': return env[v[1]]
        if v[0] == 'int': return const(v[1], 'I')
        if v[0] == 'fp': return const(v[1], 'R')
        return self.val(PTR, v, env, st)
    def rneg(self, a):
        if isinstance(a, T): return neg(a)
        raise Unsupported('fneg of %r' % (a,))
    def binop(self, op, ty, a, b, st, where):
        cx = self.cx
        if isinstance(a, UndefT) or isinstance(b, UndefT): return UNDEF
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('arith')
        if ty.k in ('double', 'float', 'x86_fp80', 'fp128'):
            if cx.fpmode != 'real': return fp2(cx, op, a, b)
            if op == 'fadd': return add(a, b)
            if op == 'fsub': return sub(a, b)
            if op == 'fmul': return mul(a, b)
            if op == 'fdiv':
                if cx.divcheck:
                    cx.oblige('div', 'denominator nonzero at ' + where, st, ne(b, R(0)))
                return div(a, b)
            raise Unsupported(op)
        if ty.k == 'vec': raise Unsupported('vector arithmetic')
        bits = ty.a
        if bits == 1:
            if op == 'and': return and_(a, b)
            if op == 'or': return or_(a, b)
            if op == 'xor': return not_(eq(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                return pdiff(cx, st, a.p, b.p)
            if op == 'add' and isinstance(a, PInt) and isinstance(b, T): return PInt(padd(a.p, b))
            raise Unsupported('pointer arithmetic ' + op)
        if op == 'add': return add(a, b)
        if op == 'sub': return sub(a, b)
        if op == 'mul': return mul(a, b)
        if op in ('udiv', 'urem'):
            a = canon_u(cx, st, a, bits, where); b = canon_u(cx, st, b, bits, where)
            if cval(b) is None: cx.oblige('div', 'integer divisor nonzero at ' + where, st, gt(b, I(0)))
            return idiv(a, b) if op == 'udiv' else imod(a, b)
        if op in ('sdiv', 'srem'):
            kb = cval(b)
            if kb and op == 'sdiv' and div_ok(a, kb): return exact_div(a, kb)
            a = canon_s(cx, st, a, bits, where); b = canon_s(cx, st, b, bits, where)
            if cval(a) is not None and cval(b):
                q = abs(cval(a)) // abs(cval(b)); q = q if (cval(a) < 0) == (cval(b) < 0) else -q
                return const(q if op == 'sdiv' else cval(a) - q * cval(b), 'I')
            if cx.pv.valid(st.hyps(), and_(ge(a, I(0)), gt(b, I(0)))):
                return idiv(a, b) if op == 'sdiv' else imod(a, b)
            raise Unsupported('signed division')
        if op == 'shl':
            k = cval(b)
            if k is not None: return scale(a, 1 << int(k))
            if cval(a) is not None and cval(a) == 1: return app('pow2', [b], 'I')
            raise Unsupported('shl by variable')
        if op in ('lshr', 'ashr'):
            k = cval(b)
            if k is None: raise Unsupported('shift by variable')
            a = canon_u(cx, st, a, bits, where) if op == 'lshr' else canon_s(cx, st, a, bits, where)
            return idiv(a, I(1 << int(k)))
        if op in ('and', 'or', 'xor'):
            ka, kb = cval(a), cval(b)
            if ka is not None and kb is not None:
                x, y = int(ka) % (1 << bits), int(kb) % (1 << bits)
                return const({'and': x & y, 'or': x | y, 'xor': x ^ y}[op], 'I')
            if ka is not None: a, b, ka, kb = b, a, kb, ka
            if op == 'and' and kb is not None:
                y = int(kb) % (1 << bits)
                if y & (y + 1) == 0:
                    return imod(canon_u(cx, st, a, bits), I(y + 1))
                if y == 0: return I(0)
            if op == 'xor' and kb is not None and int(kb) % (1 << bits) == (1 << bits) - 1:
                return sub(I(-1), a)
            if op in ('or', 'xor') and kb == 0: return a
            # boolean-valued integers
            ba, bb = as_bool(a), as_bool(b)
            if ba is not None and bb is not None:
                r = {'and': and_(ba, bb), 'or': or_(ba, bb), 'xor': not_(eq(ba, bb))}[op]
                return ite(r, I(1), I(0))
            return app('bit_' + op + str(bits), sorted([a, b]), 'I')
        raise Unsupported(op)
    def icmp(self, pred, ty, a, b, st, where):
        cx = self.cx
        if isinstance(a, UndefT) or isinstance(b, UndefT): return UNDEF
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            hook = getattr(cx, 'opaque_cmp', None)
            if hook is not None:
                r = hook(pred, a, b, st)
                if r is not None: return r
            return Opaque('cmp')
        if ty.k == 'ptr' or isinstance(a, PInt) or isinstance(b, PInt):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if isinstance(a, T) and cval(a) == 0: a = NULL
            if isinstance(b, T) and cval(b) == 0: b = NULL
            if pred == 'eq': return ptr_eq(a, b)
            if pred == 'ne': return not_(ptr_eq(a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pred](a.o, b.o)
            if isinstance(a, PIte) or isinstance(b, PIte): raise Unsupported('ptr order')
            raise Unsupported('pointer order comparison')
        bits = ty.a
        if bits == 1:
            r = eq(a, b)
            if pred == 'eq': return r
            if pred == 'ne': return not_(r)
            raise Unsupported('i1 icmp')
        if pred in ('eq', 'ne'):
            d = sub(a, b)
            k = cval(d)
            if k is not None: r = B(k % (1 << bits) == 0)
            else:
                ba, bb = as_bool(a), as_bool(b)
                if ba is not None and cval(b) is not None:
                    r = ba if cval(b) == 1 else not_(ba) if cval(b) == 0 else FALSE
                elif ba is not None and bb is not None:
                    r = eq(ba, bb)
                else:
                    m = 1 << bits
                    if cx.mute_canon_ok(st, d, -m + 1, m, where): r = eq(a, b)
                    else: r = eq(imod(d, I(m)), I(0))
            return r if pred == 'eq' else not_(r)
        cn = canon_s if pred[0] == 's' else canon_u
        a = cn(cx, st, a, bits, where); b = cn(cx, st, b, bits, where)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)
    def fcmp(self, pred, a, b):
        if isinstance(a, UndefT) or isinstance(b, UndefT): return UNDEF
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('fcmp')
        cx = self.cx
        p = pred[1:] if pred[0] in 'ou' else pred
        if p == 'rd': return TRUE
        if p == 'no': return FALSE
        if cx.fpmode != 'real':
            # relations on uninterpreted FP values
            if p in ('gt', 'ge'): a, b = b, a; p = {'gt': 'lt', 'ge': 'le'}[p]
            if p == 'ne':
                return not_(fprel(cx, 'eq', a, b))
            return fprel(cx, p, a, b)
        return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[p](a, b)
    def cast(self, op, ft, v, ty, st, where):
        cx = self.cx
        if isinstance(v, UndefT): return v
        if isinstance(v, Opaque): return v
        if op in ('bitcast', 'addrspacecast'):
            if ft.k == ty.k: return v
            raise Unsupported('bitcast %r to %r' % (ft, ty))
        if op == 'ptrtoint': return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            if cval(v) == 0: return NULL
            raise Unsupported('inttoptr')
        if op in ('fpext', 'fptrunc'):
            if op == 'fptrunc' and cx.fpmode != 'real': return fp1(cx, 'trunc', v)
            if op == 'fptrunc' and cval(v) is None: cx.assumptions.add('rounding of double->float conversion ignored')
            return v
        if op == 'zext':
            if ft.a == 1: return ite(v, I(1), I(0))
            if isinstance(v, PInt): return v
            return canon_u(cx, st, v, ft.a, where)
        if op == 'sext':
            if ft.a == 1: return ite(v, I(-1), I(0))
            return canon_s(cx, st, v, ft.a, where)
        if op == 'trunc':
            if isinstance(v, PInt): raise Unsupported('trunc of pointer')
            if ty.a == 1:
                b = as_bool(v)
                if b is not None: return b
                k = cval(v)
                if k is not None: return B(k % 2 == 1)
                return eq(imod(v, I(2)), I(1))
            k = cval(v)
            if k is not None: return const(k % (1 << ty.a), 'I')
            h = 1 << ty.a
            if cx.mute_canon or cx.pv.valid(st.hyps(), and_(ge(v, I(-(h >> 1))), lt(v, I(h))), 1500): return v
            return imod(v, I(h))
        if op == 'uitofp':
            if ft.a == 1: return ite(v, R(1), R(0))
            return to_real(canon_u(cx, st, v, ft.a, where))
        if op == 'sitofp':
            if ft.a == 1: return ite(v, R(-1), R(0))
            return to_real(canon_s(cx, st, v, ft.a, where))
        if op in ('fptoui', 'fptosi'):
            k = cval(v)
            if k is not None: return const(int(k), 'I')
            # integer-valued reals
            t = app('r2i', [v], 'I')
            # truncation towards zero; values the integer type cannot hold are undefined
            tr = to_real(t)
            st.fact(ite(lt(v, R(0)), and_(le(v, tr), lt(tr, add(v, R(1))), le(tr, R(0))), and_(le(tr, v), lt(v, add(tr, R(1))), ge(tr, R(0)))))
            return t
        raise Unsupported(op)
    # ---------- calls
    def do_call(self, f, depth, ins, st, env):
        cx = self.cx
        cal = self.val(PTR, ins.a[0], env, st)
        where = '%s:%s' % (short(cx.dem(f.name)), ins.line)
        if isinstance(cal, PIte):
            s1 = st.copy().assume(cal.c); s2 = st.copy().assume(not_(cal.c))
            out = []
            for s, c in ((s1, cal.a), (s2, cal.b)):
                args = [self.val(t, v, env, s) for t, v, at in ins.a[1]]
                out.extend(self.invoke(c, args, ins, s, depth, where))
            return out
        args = [self.val(t, v, env, st) for t, v, at in ins.a[1]]
        return self.invoke(cal, args, ins, st, depth, where)
    def invoke(self, cal, args, ins, st, depth, where):
        cx = self.cx
        if isinstance(cal, NullT):
            cx.oblige('null', 'call through null at ' + where, st, FALSE); return []
        if isinstance(cal, Opaque):
            raise Unsupported('call through %r at %s' % (cal, where))
        if not isinstance(cal, Fn): raise Unsupported('call through %r at %s' % (cal, where))
        name = self.m.aliases.get(cal.name, cal.name)
        call = CallInfo(self, name, args, ins, st, depth, where)
        h = cx.lookup(name)
        if h is not None:
            try:
                r = h(call)
            except Infeasible:
                return []
            if r is None: return [(st, None)]
            if isinstance(r, list): return r
            return [(st, r)]
        if name in self.m.funcs:
            return self.call_function(name, args, st, depth + 1)
        raise Unsupported('external call %s at %s' % (cx.dem(name), where))
    # ---------- loops
    def do_loop(self, f, depth, header, prev, st, env):
        from .loops import run_loop
        return run_loop(self, f, depth, header, prev, st, env)

class CallInfo:
    __slots__ = ('ex', 'cx', 'name', 'args', 'ins', 'st', 'depth', 'where')
    def __init__(self, ex, name, args, ins, st, depth, where):
        self.ex = ex; self.cx = ex.cx; self.name = name; self.args = args; self.ins = ins; self.st = st
        self.depth = depth; self.where = where
    def inline(self):
        return self.ex.call_function(self.name, self.args, self.st, self.depth + 1)
    @property
    def rty(self): return self.ins.ty

def lookup(self, name):
    h = self.contracts.get(name)
    if h is not None: return h
    d = self.dem(name)
    h = self.contracts.get(d)
    if h is not None: return h
    b = base_name(d)
    h = self.contracts.get(b)
    if h is not None: return h
    c = self._mc.get(name) if hasattr(self, '_mc') else None
    if not hasattr(self, '_mc'): self._mc = {}
    if name in self._mc: return self._mc[name]
    r = None
    for rx, fn in self.models:
        if rx.search(d):
            r = fn; break
    if r is not None:
        def wrapped(call, r=r, d=d):
            call.cx.called_models.add(d)
            return r(call)
        self._mc[name] = wrapped
        return wrapped
    self._mc[name] = None
    return None
Ctx.lookup = lookup
Ctx.ghost_split = False
Ctx.loop_seed = {}

def base_name(d):
    """demangled name without the parameter list (top-level parenthesis) and return type of templates"""
    lvl = 0
    i = 0
    n = len(d)
    while i < n:
        c = d[i]
        if d.startswith('operator', i) and (i == 0 or not (d[i-1].isalnum() or d[i-1] == '_')):
            j = i + 8
            if d.startswith('()', j): j += 2
            while j < n and d[j] in '<>=+-*/!&|^%[]~ ,': j += 1
            i = j; continue
        if c == '<': lvl += 1
        elif c == '>': lvl -= 1
        elif c == '(' and lvl == 0:
            if d.startswith('(anonymous namespace)', i):
                i += len('(anonymous namespace)'); continue
            return d[:i]
        i += 1
    return d

_short = {}
def short(d):
    r = _short.get(d)
    if r is None: r = _short[d] = base_name(d)[-60:]
    return r

class PInt:
    """integer image of a pointer"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __repr__(self): return 'int(%r)' % (self.p,)

def pdiff(cx, st, a, b):
    if isinstance(a, NullT) and isinstance(b, NullT): return I(0)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r: return sub(a.o, b.o)
    if isinstance(a, PIte):
        return ite(a.c, pdiff(cx, st, a.a, b), pdiff(cx, st, a.b, b)) if not isinstance(b, PIte) or b.c is not a.c else \
            ite(a.c, pdiff(cx, st, a.a, b.a), pdiff(cx, st, a.b, b.b))
    raise Unsupported('difference of unrelated pointers %r %r' % (a, b))

def padd(p, off):
    if cval(off) == 0: return p
    if isinstance(p, Ptr): return Ptr(p.r, add(p.o, off))
    if isinstance(p, PIte): return PIte(p.c, padd(p.a, off), padd(p.b, off))
    if isinstance(p, NullT):
        # address arithmetic on null: only harmless when never dereferenced
        return Ptr(_nullregion, off)
    if isinstance(p, (Opaque,)): return p
    raise Unsupported('pointer arithmetic on %r' % (p,))
_nullregion = Region('null', I(0))

def signed_rep(cx, st, x):
    k = cval(x)
    if k is not None:
        k = k % (1 << 64)
        return const(k - (1 << 64) if k >= 1 << 63 else k, 'I')
    return x   # representative; in-bounds obligations are stated on it

def zero_of(ty):
    if ty.k in ('double', 'float', 'x86_fp80', 'fp128'): return R(0)
    if ty.k == 'int': return FALSE if ty.a == 1 else I(0)
    if ty.k == 'ptr': return NULL
    raise Unsupported('zero of %r' % ty)

def as_bool(x):
    """Bool behind ite(c,1,0) or None"""
    if not isinstance(x, T) or x.sort != 'I': return None
    k = cval(x)
    if k is not None: return TRUE if k == 1 else FALSE if k == 0 else None
    a = as_atom(x)
    if a is not None and a.op == 'ite':
        p, q = as_bool(a.args[1]), as_bool(a.args[2])
        if p is not None and q is not None: return ite(a.args[0], p, q)
    # 1 - ite(c,1,0)
    it = items(x)
    if len(it) == 2:
        y = sub(I(1), x); a = as_atom(y)
        if a is not None and a.op == 'ite':
            b = as_bool(y)
            if b is not None: return not_(b)
    return None

def merge_env(c, e1, e2):
    out = {}
    for k, v in e1.items():
        if k in e2:
            w = e2[k]
            if v is w or same(v, w): out[k] = v
            else:
                try: out[k] = vite(c, v, w)
                except Unsupported:
                    if isinstance(v, PInt) and isinstance(w, PInt):
                        out[k] = PInt(vite(c, v.p, w.p))
                    else: out[k] = Poison(v, w)
        else: out[k] = v
    for k, v in e2.items():
        if k not in out: out[k] = v
    return out

class Poison:
    def __init__(self, a, b): self.a = a; self.b = b
    def __repr__(self): return 'poison'

# uninterpreted floating point (bit-exact reasoning: only commutativity is known)
def fp2(cx, op, a, b):
    n = {'fadd': 'fl+', 'fsub': 'fl-', 'fmul': 'fl*', 'fdiv': 'fl/'}[op]
    return app(n, [a, b], 'R')
def fp1(cx, op, a): return app('fl' + op, [a], 'R')
def fprel(cx, p, a, b):
    if p == 'eq' and b.id < a.id: a, b = b, a
    if cval(a) is not None and cval(b) is not None:
        return {'eq': eq, 'lt': lt, 'le': le}[p](a, b)
    return mk('app', ('flrel_' + p, a, b), 'B')
