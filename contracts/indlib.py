"""Induction over the number of steps of a solver.

After K steps (base case, executed) the object graph of the solver is generalised: cells that changed over the last `period` steps by a constant become that
constant times an unknown number of periods, buffers that hold a named part of the specification's state (a role) become an arbitrary value of that role,
buffers that hold zero stay zero, all other buffers and the state itself become arbitrary.  `period` further steps from there must satisfy the
specification and end in a state of the same form (closure); then they do for every number of steps.  Nothing here names a field of the class."""
from contracts.absengine import *
from nbv.symex import UndefT, Fn
from nbv.terms import T as Term, show, atoms_of

def cells(st, r):
    out = {}
    for e in st.mem.get(r.id, ()):
        if e[0] == 'C':
            for o, (v, n) in e[1].items(): out[o] = (v, n)
        elif e[0] == 'S' and cval(e[1]) is not None and (len(e) < 5 or e[4] is TRUE): out[int(cval(e[1]))] = (e[3], e[2])
        else: raise Unsupported('memory of %r is not a list of cells (%s)' % (r, e[0]))
    return out
def graph(w, ae, roots):
    """cells of all objects reachable from the roots, engine and globals left out"""
    seen = {}; work = [p.r for p in roots]
    while work:
        r = work.pop()
        if r.id in seen or r is ae.e.r or r.meta.get('buf') or r.meta.get('global') is not None: continue
        seen[r.id] = r
        for v, n in cells(w.st, r).values():
            if isinstance(v, Ptr): work.append(v.r)
            elif isinstance(v, PIte): raise Unsupported('a pointer that depends on a condition in the solver')
    return {(i, o): v for i, r in seen.items() for o, v in cells(w.st, r).items()}
def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r is b.r and a.o is b.o
    return type(a) is type(b) and not isinstance(a, (Ptr, Term)) and not isinstance(a, UndefT) and repr(a) == repr(b) or isinstance(a, UndefT) and isinstance(b, UndefT)

class Induction:
    def __init__(self, w, ae, s):
        self.w, self.ae, self.s = w, ae, s; self.snap = None
    def mark(self): self.snap = graph(self.w, self.ae, [self.s])
    def form(self, roles):
        """buffer -> role index | 'zero' | None"""
        w, ae = self.w, self.ae; out = {}
        for r in ae.bufs:
            if r is ae.y.r: continue
            v = ae.get(w.st, Ptr(r, 0)); f = None
            if not self.zeros and not roles: f = None
            elif v is R(0) or atoms_of(v, ('ite',)) and w.cx.pv.valid(w.st.hyps(), eq(v, R(0))): f = 'zero'
            else:
                f = next((k for k, t in roles.items() if v is t), None)
                if f is None and atoms_of(v, ('ite',)): f = next((k for k, t in roles.items() if w.cx.pv.valid(w.st.hyps(), eq(v, t))), None)
            out[r] = f
        return out
    def generalise(self, roles, tag, zeros=True):
        """call one period after mark(); roles: name -> term; returns name -> fresh variable, and the fresh state"""
        w, ae = self.w, self.ae; now = graph(w, ae, [self.s]); old = self.snap
        if set(now) != set(old): raise Unsupported('the solver still grows')
        self.q = var('periods', 'I'); w.fact(and_(ge(self.q, I(0)), lt(self.q, I(1 << 40)))); self.cnt = {}; self.real = set()
        for k, (v, n) in now.items():
            u = old[k][0]
            if same(u, v): continue
            a, b = (cval(x) if isinstance(x, Term) else None for x in (u, v)); p = Ptr(REGION(k[0]), k[1])
            if isinstance(v, Term) and v.sort == 'I' and a is not None and b is not None:
                d = int(b) - int(a); self.cnt[k] = (int(b), d, n); store(w.cx, w.st, p, add(I(int(b)), mul(I(d), self.q)), Ty('int', 8 * n))
            elif isinstance(v, Term) and v.sort == 'R': self.real.add(k); store(w.cx, w.st, p, fresh('any', 'R'), DOUBLE)
            else: raise Unsupported('cell %r of the solver changes from %r to %r' % (k, u, v))
        self.base = now; self.zeros = zeros; self.f = self.form(roles)
        import os
        if os.environ.get('NBV_DBG'):
            for r, f in self.f.items(): print(r, f, str(show(ae.get(w.st, Ptr(r, 0)), 300)))
        g = {k: var('%s_%s' % (tag, k), 'R') for k in roles}
        for r, f in self.f.items():
            if f == 'zero' and zeros: continue
            if f == 'zero': self.f[r] = f = None
            ae.put(w.st, Ptr(r, 0), g[f] if f is not None else fresh('any', 'R'))
        y = var(tag + '_y', 'R'); ae.put(w.st, ae.y, y); self.n = len(ae.bufs)
        t = var(tag + '_t', 'R'); store(w.cx, w.st, ae.ti, t, DOUBLE)
        return g, y, t
    def closed(self, roles, what):
        """one period later: the state has the form it was generalised from"""
        w, ae = self.w, self.ae; now = graph(w, ae, [self.s]); bad = ''
        if set(now) != set(self.base): bad = 'objects'
        else:
            for k, (v, n) in now.items():
                if k in self.cnt:
                    b, d, _ = self.cnt[k]
                    if not w.cx.pv.valid(w.st.hyps(), eq(v, add(I(b), mul(I(d), add(self.q, I(1)))))): bad = 'counter at %r' % (k,)
                elif k in self.real: pass
                elif not same(v, self.base[k][0]): bad = 'cell %r' % (k,)
        for r, f in self.f.items():
            v = ae.get(w.st, Ptr(r, 0))
            if f == 'zero' and v is not R(0) and not w.cx.pv.valid(w.st.hyps(), eq(v, R(0))): bad = 'a zero buffer'
            elif f in roles and f != 'zero' and v is not roles[f] and not w.cx.pv.valid(w.st.hyps(), eq(v, roles[f])): bad = 'the buffer of ' + str(f)
        w.cx.oblige('inv', what + ': the solver is again in the general state' + (' (%s)' % bad if bad else ''), w.st, B(not bad))
def REGION(i):
    from nbv.symex import REG
    return REG[i]

def equal_graphs(w0, ae0, s0, w1, ae1, s1):
    """the two solvers have isomorphic objects with equal numbers ('' or what differs); the pairs of buffers, with whether their contents are equal"""
    pairs = {}; work = [(s0.r, s1.r)]; h = w1.st.hyps() + w0.st.hyps(); bufs = []
    def val(a, b): return a is b or w1.cx.pv.valid(h, eq(a, b))
    while work:
        a, b = work.pop()
        if a.id in pairs:
            if pairs[a.id] is not b: return 'aliasing of %s' % a.name, bufs
            continue
        pairs[a.id] = b
        if a is ae0.e.r or b is ae1.e.r:
            if not (a is ae0.e.r and b is ae1.e.r): return 'engine', bufs
            continue
        if a.meta.get('global') is not None or b.meta.get('global') is not None:
            if a.meta.get('global') != b.meta.get('global'): return 'global', bufs
            continue
        if a.meta.get('buf') or b.meta.get('buf'):
            if not (a.meta.get('buf') and b.meta.get('buf')): return 'buffer', bufs
            bufs.append((Ptr(a, 0), Ptr(b, 0), ae0.get(w0.st, Ptr(a, 0)) is ae1.get(w1.st, Ptr(b, 0)))); continue
        ca, cb = cells(w0.st, a), cells(w1.st, b)
        if set(ca) != set(cb): return 'layout of %s' % a.name, bufs
        for o in ca:
            u, v = ca[o][0], cb[o][0]
            if isinstance(u, Ptr) and isinstance(v, Ptr):
                if u.o is not v.o and not val(u.o, v.o): return 'pointer', bufs
                work.append((u.r, v.r))
            elif isinstance(u, Term) and isinstance(v, Term):
                if u.sort != v.sort or not val(u, v): return 'cell %d of %s' % (o, a.name), bufs
            elif isinstance(u, UndefT) or isinstance(v, UndefT):
                if not (isinstance(u, UndefT) and isinstance(v, UndefT)): return 'cell %d of %s' % (o, a.name), bufs
            elif type(u) is not type(v) or repr(u) != repr(v): return 'cell %d of %s' % (o, a.name), bufs
    return '', bufs
def same_forever(w0, ae0, s0, w1, ae1, s1, step, what, period=1):
    """both solvers give the same states for ever: their states are equal (deterministic code), or equal except for buffers that a further step from
    arbitrary contents (the same where they were equal, unrelated elsewhere) shows to have no influence"""
    bad, bufs = equal_graphs(w0, ae0, s0, w1, ae1, s1)
    if not bad and not all(e for _, _, e in bufs):
        k0, k1 = w0.st, w1.st; w0.st, w1.st = w0.st.copy(), w1.st.copy()
        m0, m1 = Induction(w0, ae0, s0), Induction(w1, ae1, s1); m0.mark(); m1.mark()
        for a, b, e in bufs:
            v = fresh('any', 'R'); ae0.put(w0.st, a, v); ae1.put(w1.st, b, v if e else fresh('other', 'R'))
        y = fresh('y', 'R'); ae0.put(w0.st, ae0.y, y); ae1.put(w1.st, ae1.y, y)
        t = fresh('t', 'R'); ae0.set_time(w0.st, t); ae1.set_time(w1.st, t)
        for k in range(period):
            step(w0, ae0, s0, k); step(w1, ae1, s1, k)
            if ae0.val(ae0.y) is not ae1.val(ae1.y): w1.goal(what + ': later steps do not depend on what is left in the buffers', w1.st, eq(ae1.val(ae1.y), ae0.val(ae0.y)))
        for m in (m0, m1):
            g = graph(m.w, m.ae, [m.s])
            if set(g) != set(m.snap) or not all(same(g[k][0], m.snap[k][0]) for k in g): bad = 'the solver is not in a cycle'
        if not bad:
            bad, again = equal_graphs(w0, ae0, s0, w1, ae1, s1); eqs = {(a.r.id, b.r.id) for a, b, e in again if e}
            if not bad and not all((a.r.id, b.r.id) in eqs for a, b, e in bufs if e): bad = 'buffers'
        w0.st, w1.st = k0, k1
    w1.cx.oblige('inv', what + (' (%s)' % bad if bad else ''), w1.st, B(not bad))
