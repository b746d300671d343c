"""C21: Barnes-Hut forces: every traversal sums exactly the accepted nodes; the engines turn that into the derivative."""
from contracts.bhlib import *
from contracts import bhlib
HARNESS = 'bh.cpp'; HARNESS_GROUPS = ['c21']
HARNESS_TUS = bhlib.SRC
EXTRACT = bhlib.EXTRACT
ASSUME = ['the tree or heap has the structure proved in C11 (traversals are verified over that structure), the pair force is a function of its arguments (its body: C01), the index functions obey the preorder laws proved in C10',
          'at least one body, fewer than 2^28 bodies, indices below 2^31; depth of the balanced trees below 64 (follows from the halving lemma)']

V1 = [var('v1' + x, 'R') for x in 'xyz']
M1 = var('mass1', 'R')
def F(c, q): return app('F%d' % q, [c], 'R')

def force_contract(w):
    """pair force by contract (its body is verified in C01): a function of its arguments"""
    def h(c):
        ret, this, a, b, ma, mb = c.args
        args = [load(c.cx, c.st, Ptr(p.r, add(p.o, I(8 * q))), DOUBLE) for p in (a, b) for q in range(3)] + [ma, mb]
        for q in range(3): store(c.cx, c.st, Ptr(ret.r, add(ret.o, I(8 * q))), app('FRC%d' % q, args, 'R'), DOUBLE)
        return None
    w.cx.contracts['nbody_data::force'] = h

def accepted(center, radius):
    d = [sub(V1[k], center[k]) for k in range(3)]
    return lt(radius, add(add(mul(d[0], d[0]), mul(d[1], d[1])), mul(d[2], d[2])))
def contribution(center, mass, radius, inner, l, r, q):
    """definition of F(c): an accepted node counts as one body, others as the sum of their children"""
    return ite(accepted(center, radius), app('FRC%d' % q, V1 + center + [M1, mass], 'R'), ite(inner, add(F(l, q), F(r, q)), R(0)))

class Trav:
    """invariant of a traversal loop.  node: 'index' (heap) or 'ptr' (tree)"""
    def __init__(self, w, S, result, unfold, inner, root, mk, unmk, accept=None, ncomp=3, bound=None):
        self.w = w; self.S = S; self.res = result; self.unfold = unfold; self.inner = inner; self.root = root; self.mk = mk; self.unmk = unmk
        self.accept = accept; self.n = ncomp; self.bound = bound; self.used = 0
    # ------------------------------------------------------------ walk by index
    def stackless(self, ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]
        phis = [i for i in f.blocks[header].insts if i.op == 'phi']
        if len(phis) != 1 or phis[0].ty.k != 'int': raise Unsupported('shape of the walk')
        p = phis[0].res; self.used += 1
        rem = lambda c, q: app('Rem%d' % q, [c], 'R')
        aft = lambda c, q: app('After%d' % q, [c], 'R')
        def defs(s, c):
            for q in range(3):
                s.fact(eq(rem(c, q), add(F(c, q), aft(c, q))))
        s0 = st.copy(); defs(s0, self.root)
        for q in range(3): s0.fact(eq(aft(self.root, q), R(0)))
        cx.oblige('inv', 'walk: starts at the root', s0, eq(env[p], self.root))
        for q in range(3): cx.oblige('inv', 'walk: nothing summed before the root (%d)' % q, s0, eq(self.total(s0, q), sub(F(self.root, q), rem(env[p], q))))
        out = []
        for inn in (True, False):
            c = fresh('c', 'I'); s = st.copy(); e = dict(env); e[p] = c
            for k, v in self.bound(c): s.assume(v)
            l, r = mul(c, I(2)), add(mul(c, I(2)), I(1))
            s.assume(self.inner(c) if inn else not_(self.inner(c)))
            for q in range(3):
                s.fact(eq(F(c, q), self.unfold(c, q)))
                self.set_total(s, q, sub(F(self.root, q), rem(c, q)))
                # definition of After, and the lemma After(c) = Rem(next(c)), zero at the end of the walk
                s.fact(eq(aft(l, q), add(F(r, q), aft(c, q))))
            nd = app('ND', [c], 'I')
            for q in range(3): s.fact(eq(aft(c, q), ite(eq(nd, self.root), R(0), rem(nd, q))))
            defs(s, c); defs(s, l)
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
                tag = 'inner' if inn else 'leaf'
                if dest == header:
                    e3 = ex.phis(f, header, pr, e2, s2)
                    for k, v in self.bound(e3[p]): cx.oblige('inv', 'walk, %s: %s' % (tag, k), s2, v)
                    for q in range(3): cx.oblige('inv', 'walk, %s: what is summed and what is left make up the whole (%d)' % (tag, q), s2, eq(self.total(s2, q), sub(F(self.root, q), rem(e3[p], q))))
                else:
                    for q in range(3): cx.oblige('inv', 'walk, %s: at the end everything is summed (%d)' % (tag, q), s2, eq(self.total(s2, q), F(self.root, q)))
                    out.append((dest, pr, s2, e2))
        return self.leave(st, out)
    def leave(self, st, out):
        if not out: raise Unsupported('the walk never ends')
        dest, pr, s2, e2 = out[0]
        s = st.copy()
        for q in range(self.n): self.set_total(s, q, F(self.root, q))
        return [(dest, pr, s, e2)]
    def total(self, s, q): return load(self.w.cx, s, Ptr(self.res, I(8 * q)), DOUBLE)
    def set_total(self, s, q, v): loops.set_cell(s, self.res, 8 * q, v, 8)
    # ------------------------------------------------------------ explicit stack
    def stack(self, ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]
        phis = [i for i in f.blocks[header].insts if i.op == 'phi']
        if len(phis) != 1: raise Unsupported('shape of the stack loop')
        p = phis[0].res; top = env[p]
        ety = U64 if self.unmk is None else PTR
        if phis[0].ty.k != 'ptr' or not isinstance(top, Ptr): raise Unsupported('shape of the stack loop')
        stk = top.r; self.used += 1
        name = lambda v: v if self.unmk is None else self.unmk(v)
        cx.oblige('inv', 'stack: starts with one entry', st, eq(top.o, I(8)))
        cx.oblige('inv', 'stack: starts with the root', st, eq(name(load(cx, st, Ptr(stk, I(0)), ety)), self.root))
        for q in range(self.n): cx.oblige('inv', 'stack: nothing summed at the start (%d)' % q, st, eq(self.total(st, q), R(0)))
        A = lambda j: app('A', [j], 'I')
        lev = lambda c: app('lev', [c], 'I')
        out = []
        for kind in ('end', 'accepted', 'inner', 'leaf') if self.accept else ('end', 'inner', 'leaf'):
            s = st.copy(); e = dict(env)
            sp = fresh('sp', 'I') if kind != 'end' else I(0)
            e[p] = Ptr(stk, mul(sp, I(8)))
            def rd(cx_, s_, o, ty, size):
                j = exact_div(o, 8)
                return A(j) if self.unmk is None else self.mk(A(j))
            s.mem[stk.id] = (('X', rd),)
            W = lambda n, q: app('W%d' % q, [n], 'R')        # sum of F over the lowest n entries
            if kind == 'end':
                for q in range(self.n): self.set_total(s, q, F(self.root, q))       # W(0) = 0
            else:
                s.assume(ge(sp, I(1)))
                c = A(sub(sp, I(1)))
                for k, v in self.bound(c): s.assume(v)
                if kind == 'accepted': s.assume(self.accept(c))
                else:
                    s.assume(self.inner(c) if kind == 'inner' else not_(self.inner(c)))
                    if self.accept: s.assume(not_(self.accept(c)))
                s.assume(ge(lev(c), sub(sp, I(1))))
                # inner nodes of a tree over fewer than 2^60 bodies are less than 61 levels deep (halving lemma below)
                s.fact(implies(self.inner(c), lt(lev(c), I(61)))); s.fact(lt(lev(c), I(62)))
                l, r = mul(c, I(2)), add(mul(c, I(2)), I(1))
                s.fact(eq(lev(l), add(lev(c), I(1)))); s.fact(eq(lev(r), add(lev(c), I(1))))
                for q in range(self.n):
                    s.fact(eq(F(c, q), self.unfold(c, q)))
                    self.set_total(s, q, sub(sub(F(self.root, q), W(sub(sp, I(1)), q)), F(c, q)))
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
                if dest != header:
                    if kind != 'end':
                        # leaving with entries on the stack
                        cx.oblige('inv', 'stack, %s: does not end early' % kind, s2, FALSE); continue
                    for q in range(self.n): cx.oblige('inv', 'stack: at the end everything is summed (%d)' % q, s2, eq(self.total(s2, q), F(self.root, q)))
                    out.append((dest, pr, s2, e2)); continue
                if kind == 'end':
                    cx.oblige('inv', 'stack: ends when empty', s2, FALSE); continue
                e3 = ex.phis(f, header, pr, e2, s2); t2 = e3[p]
                d = sub(exact_div(t2.o, 8), sp); dv = cval(d)
                if dv is None or not -1 <= dv <= 8: raise Unsupported('stack pointer moves by %s' % d)
                base = sub(sp, I(1)); ents = [load(cx, s2, Ptr(stk, mul(add(base, I(k)), I(8))), ety) for k in range(int(dv) + 1)]
                j = fresh('j', 'I'); sj = s2.copy(); sj.assume(and_(ge(j, I(0)), lt(j, base)))
                cx.oblige('inv', 'stack, %s: lower entries stay' % kind, sj, eq(name(load(cx, sj, Ptr(stk, mul(j, I(8))), ety)), A(j)))
                for q in range(self.n):
                    tot = add(self.total(s2, q), W(base, q))
                    for x in ents: tot = add(tot, F(name(x), q))
                    cx.oblige('inv', 'stack, %s: what is summed and what is on the stack make up the whole (%d)' % (kind, q), s2, eq(tot, F(self.root, q)))
                for k, x in enumerate(ents):
                    cx.oblige('inv', 'stack, %s: entry %d lies deep enough for its place' % (kind, k), s2, ge(lev(name(x)), add(base, I(k))))
                    for b, v in self.bound(name(x)): cx.oblige('inv', 'stack, %s: entry %d: %s' % (kind, k, b), s2, v)
        return self.leave(st, out)

def sret(w):
    r = Region('result', I(24), None, {}); w.st.mem[r.id] = ()
    return r
def vec(w, name, vals):
    r = Region(name, I(24), None, {}); w.st.mem[r.id] = (('C', {8 * q: (v, 8) for q, v in enumerate(vals)}),)
    return r

def heap_trav(S, cls, kind):
    w = S.world(); N = w.N(); w.fact(lt(N, I(1 << 40))); H = Heap(w, N, leaves=True)
    force_contract(w); res = sret(w); v1 = vec(w, 'v1', V1)
    def unfold(c, q): return contribution([H.old('center', c, k) for k in range(3)], H.old('mass', c), H.old('radius', c), lt(c, N), mul(c, I(2)), add(mul(c, I(2)), I(1)), q)
    T_ = Trav(w, S, res, unfold, lambda c: lt(c, N), I(1), None, None, accept=lambda c: accepted([H.old('center', c, k) for k in range(3)], H.old('radius', c)), bound=lambda c: [('stays inside the heap', and_(ge(c, I(1)), lt(c, mul(N, I(2)))))])
    def nd(c):
        x = c.args[0]; t = app('ND', [x], 'I')
        c.cx.oblige('contract', 'next_down is asked for a node of the heap', c.st, and_(ge(x, I(1)), lt(x, mul(N, I(2)))))
        c.st.fact(and_(ge(t, I(1)), lt(t, mul(N, I(2)))))      # proved in C10
        return t
    w.cx.contracts['nbody_heap_func<unsigned long>::next_down'] = nd
    w.cx.loop_inv[cls + '::traverse'] = T_.stackless if kind == 'walk' else T_.stack
    name = find(w, '^%s::traverse$' % cls, 5); S.target(cls + '::traverse')
    sat_check(w, S, 'traverse')
    data = Region('data', None, None, {})
    for st, _ in w.call(name, [Ptr(res, 0), H.p, Ptr(data, 0), Ptr(v1, 0), M1]):
        for q in range(3): w.cx.oblige('inv', 'traverse: component %d is the sum of the accepted nodes' % q, st, eq(w.cell(Ptr(res, I(8 * q)), DOUBLE, st), F(I(1), q)))
    if not T_.used: raise Unsupported('no traversal loop found')

def s_walk_lemma(S):
    """After(c) = Rem(ND(c)) (0 when the walk ends), by induction over the depth of c, from the laws of next_down proved in C10"""
    w = S.world(); c = var('c', 'I'); w.fact(ge(c, I(1)))
    nd = lambda x: app('ND', [x], 'I'); aft = lambda x: app('After', [x], 'R'); rem = lambda x: app('Rem', [x], 'R'); f = lambda x: app('F', [x], 'R')
    P = lambda x: eq(aft(x), ite(eq(nd(x), I(1)), R(0), rem(nd(x))))
    l, r = mul(c, I(2)), add(mul(c, I(2)), I(1))
    for x in (c, l, r): w.fact(eq(rem(x), add(f(x), aft(x))))
    w.fact(eq(nd(l), r)); w.fact(eq(nd(r), nd(c))); w.fact(eq(nd(I(1)), I(1))); w.fact(eq(aft(I(1)), R(0)))
    w.fact(eq(aft(l), add(f(r), aft(c)))); w.fact(eq(aft(r), aft(c)))
    w.goal('walk lemma: root', w.st, P(I(1)))
    s = w.st.copy(); s.assume(P(c))
    w.goal('walk lemma: left child', s, P(l)); w.goal('walk lemma: right child', s, P(r))
    # halving lemma: (bodies - 1) * 2^level <= N - 1 carries over to the children of a node, so an inner node (2 bodies or more) has 2^level <= N - 1
    n, a, p, N = var('n', 'I'), var('a', 'I'), var('p', 'I'), var('N', 'I')
    for x in (n, a, p, N): w.fact(ge(x, I(0)))
    s = w.st.copy(); s.assume(and_(ge(n, I(2)), ge(a, I(1)), le(mul(a, I(2)), add(n, I(1)))))
    w.goal('halving lemma: children have at most half of the bodies, rounded up', s, le(mul(sub(a, I(1)), I(2)), sub(n, I(1))))

# ------------------------------------------------------------------ pointer tree
def tree_world(S, w):
    """all nodes of a tree as one family: node k has children 2k and 2k+1 when inner"""
    ns = off(w, 'node_size'); inner = lambda k: eq(app('inner', [k], 'I'), I(1))
    reg = Region('nodes', None, None, {})
    fo = {}
    for f, n in NF:
        for q in range(max(n, 1)): fo[off(w, 'n_' + f) + 8 * q] = (f, q)
    def val(k, f, q): return app('T%s%d' % (f, q), [k], 'R')
    def base(cx, st, o, ty, size):
        for d, (f, q) in fo.items():
            try: k = exact_div(sub(o, I(d)), ns)
            except Unsupported: continue
            if f in ('left', 'right'):
                i = cx.decide(st, inner(k)); child = Ptr(reg, mul(add(mul(k, I(2)), I(1 if f == 'right' else 0)), I(ns)))
                return child if i is True else NULL if i is False else PIte(inner(k), child, NULL)
            if f == 'body':
                t = app('Tbody', [k], 'I'); st.fact(implies(not_(inner(k)), and_(ge(t, I(0)), lt(t, I(1 << 60)))))
                i = cx.decide(st, inner(k))
                return I(-1) if i is True else t if i is False else ite(inner(k), I(-1), t)
            return val(k, f, q)
        raise Unsupported('access inside a node at %s' % o)
    reg.base = base
    mk = lambda k: Ptr(reg, mul(k, I(ns)))
    def unmk(p):
        if isinstance(p, Ptr) and p.r is reg: return exact_div(p.o, ns)
        raise Unsupported('not a node: %r' % (p,))
    t = Region('tree', None, None, {}); w.st.mem[t.id] = (('C', {off(w, 't_root'): (mk(I(1)), 8)}),)
    return Ptr(t, 0), inner, val, mk, unmk

def s_tree_trav(S):
    w = S.world(); t, inner, val, mk, unmk = tree_world(S, w)
    force_contract(w); res = sret(w); v1 = vec(w, 'v1', V1)
    def unfold(c, q): return contribution([val(c, 'center', k) for k in range(3)], val(c, 'mass', 0), val(c, 'radius', 0), inner(c), mul(c, I(2)), add(mul(c, I(2)), I(1)), q)
    T_ = Trav(w, S, res, unfold, inner, I(1), mk, unmk, accept=lambda c: accepted([val(c, 'center', k) for k in range(3)], val(c, 'radius', 0)), bound=lambda c: [])
    w.cx.loop_inv['nbody_space_tree::traverse'] = T_.stack
    name = find(w, '^nbody_space_tree::traverse$', 5); S.target('nbody_space_tree::traverse')
    data = Region('data', None, None, {})
    for st, _ in w.call(name, [Ptr(res, 0), t, Ptr(data, 0), Ptr(v1, 0), M1]):
        for q in range(3): w.cx.oblige('inv', 'traverse: component %d is the sum of the accepted nodes' % q, st, eq(w.cell(Ptr(res, I(8 * q)), DOUBLE, st), F(I(1), q)))
    if not T_.used: raise Unsupported('no traversal loop found')


def visit_fn(w, cls): return find(w, r'^void %s::traverse<nbv_visitor>$' % cls)
def vertex_at(c, p): return [load(c.cx, c.st, Ptr(p.r, add(p.o, I(8 * q))), DOUBLE) for q in range(3)]

def s_heap_visit(cls):
    """every leaf is visited exactly once with its body, position and mass"""
    def sec(S):
        w = S.world(); N = w.N(); H = Heap(w, N, leaves=True)
        V = {f: Region('visit.' + f, mul(N, I(16)), (lambda f: lambda cx, st, o, ty, size: R(0))(f), {'elem': DOUBLE}) for f in ('n', 'x', 'y', 'z', 'm')}
        def visit(c):
            this, body, v, m = c.args
            a = as_atom(body) if is_poly(body) else None
            if a is None or a.op != 'app' or a.args[0] != 'H_body.i64': raise Unsupported('visited body is not read from a node')
            j = a.args[1]; o = mul(j, I(8)); cx = c.cx; st = c.st
            store(cx, st, Ptr(V['n'], o), add(load(cx, st, Ptr(V['n'], o), DOUBLE), R(1)), DOUBLE)
            for f, x in zip('xyzm', vertex_at(c, v) + [m]): store(cx, st, Ptr(V[f], o), x, DOUBLE)
            return None
        w.cx.contracts['nbv_visitor::operator()'] = visit
        S.target(cls + '::traverse<Visitor>')
        vis = Region('visitor', None, None, {}); w.st.mem[vis.id] = ()
        name = visit_fn(w, cls)
        for st, _ in w.call(name, [H.p] + ([Ptr(vis, 0)] if len(w.m.funcs[name].params) > 1 else [])):
            j, s = fresh('j', 'I'), st.copy(); s.assume(and_(ge(j, N), lt(j, mul(N, I(2)))))
            rd = lambda f, s: w.rd(Ptr(V[f], 0), j, s)
            w.goal('visit: every leaf exactly once', s, eq(rd('n', s), R(1)))
            for q, f in enumerate('xyz'): w.goal('visit: position of the leaf (%s)' % f, s, eq(rd(f, s), H.old('center', j, q)))
            w.goal('visit: mass of the leaf', s, eq(rd('m', s), H.old('mass', j)))
            s = st.copy(); s.assume(and_(ge(j, I(0)), lt(j, N)))
            w.goal('visit: nothing but leaves', s, eq(rd('n', s), R(0)))
    return sec

def s_tree_visit(S):
    """the visits of a traversal are exactly the leaves: an arbitrary weight of (body, position, mass) sums up to that of all leaves"""
    w = S.world(); t, inner, val, mk, unmk = tree_world(S, w)
    res = Region('visits', I(8), None, {}); w.st.mem[res.id] = (('C', {0: (R(0), 8)}),)
    wt = lambda body, x, m: app('weight', [body] + x + [m], 'R')
    def visit(c):
        this, body, v, m = c.args
        store(c.cx, c.st, Ptr(res, I(0)), add(load(c.cx, c.st, Ptr(res, I(0)), DOUBLE), wt(body, vertex_at(c, v), m)), DOUBLE)
        return None
    w.cx.contracts['nbv_visitor::operator()'] = visit
    unfold = lambda c, q: ite(inner(c), add(F(mul(c, I(2)), q), F(add(mul(c, I(2)), I(1)), q)), wt(app('Tbody', [c], 'I'), [val(c, 'center', k) for k in range(3)], val(c, 'mass', 0)))
    T_ = Trav(w, S, res, unfold, inner, I(1), mk, unmk, ncomp=1, bound=lambda c: [])
    name = visit_fn(w, 'nbody_space_tree'); S.target('nbody_space_tree::traverse<Visitor>')
    w.cx.loop_inv[base_name(w.cx.dem(name))] = T_.stack
    vis = Region('visitor', None, None, {}); w.st.mem[vis.id] = ()
    for st, _ in w.call(name, [t] + ([Ptr(vis, 0)] if len(w.m.funcs[name].params) > 1 else [])):
        w.cx.oblige('inv', 'visit: exactly the leaves, each once', st, eq(w.cell(Ptr(res, I(0)), DOUBLE, st), F(I(1), 0)))
    if not T_.used: raise Unsupported('no traversal loop found')

# ------------------------------------------------------------------ the engines
ENGINES = {'nbody_engine_simple_bh_tree': ('nbody_space_tree', 'e_tree'), 'nbody_engine_simple_bh_heap': ('nbody_space_heap', 'e_heap'), 'nbody_engine_simple_bh_heap_stackless': ('nbody_space_heap_stackless', 'e_heapsl')}
def visitor_of(w, name):
    """the call operator a visiting traversal finally applies: the first callee with a visitor's parameters"""
    seen, todo = set(), [name]
    while todo:
        n = todo.pop(0)
        if n in seen or n not in w.m.funcs: continue
        seen.add(n)
        for b in w.m.funcs[n].blocks.values():
            for i in b.insts:
                if i.op != 'call': continue
                for o in [i.a[0]] + [v for _, v, _ in i.a[1]]:
                    if o[0] == 'glob' and o[1] in w.m.funcs:
                        d = w.cx.dem(o[1])
                        if d.endswith('operator()(unsigned long, vertex3<double> const&, double) const'): return o[1]
                        if o[1] not in seen and len(w.m.funcs[o[1]].blocks) < 60: todo.append(o[1])
    raise Unsupported('no visitor found')

def s_engine(cls, nested):
    tree, fo = ENGINES[cls]
    def sec(S):
        import re
        w = S.world(); N = w.N()
        ratio = var('ratio', 'R'); rate = var('rate', 'I'); w.fact(and_(ge(rate, I(0)), lt(rate, I(1 << 40))))
        e, d, A = w.engine(cls, N, [ratio, I(1 if nested else 0), rate])
        nb = mul(N, I(48))
        y = w.buffer(e, cls, nb, 'y'); f = w.buffer(e, cls, nb, 'f'); o = w.buffer(e, cls, nb, 'o')
        Y = arr('y'); M = arr('D_mass'); yd = w.buf_data(y); fd = w.buf_data(f)
        tp = Ptr(e.r, I(off(w, fo)))
        empty = var('empty', 'I'); w.fact(or_(eq(empty, I(0)), eq(empty, I(1))))
        seen = []
        def args_ok(c, n, ra, ps):
            ok = [eq(n, N), eq(ra, ratio)]
            for k, p in enumerate(ps): ok.append(eq(p.o, mul(N, I(8 * k))) if isinstance(p, Ptr) and p.r is yd.r else FALSE)
            return and_(*ok)
        def mark(c, what):
            c.st.ghost['tree'] = c.st.ghost.get('tree', ()) + (what,)
        need = or_(eq(rate, I(0)), eq(empty, I(1)), eq(imod(var('D_step', 'I'), rate), I(0)))
        def build(c):
            t, n, rx, ry, rz, m, ra = c.args
            i = fresh('i', 'I'); s = c.st.copy(); s.assume(and_(ge(i, I(0)), lt(i, N)))
            c.cx.oblige('contract', 'tree built over all bodies of y with the configured ratio', c.st, args_ok(c, n, ra, (rx, ry, rz)))
            c.cx.oblige('contract', 'tree built with the masses of the bodies', s, eq(w.rd(m, i, s), M(i)))
            c.cx.oblige('contract', 'built anew only on the first computation and every rate steps', c.st, need)
            mark(c, 'build')
        def rebuild(c):
            t, n, rx, ry, rz, ra = c.args
            c.cx.oblige('contract', 'tree updated over all bodies of y with the configured ratio', c.st, args_ok(c, n, ra, (rx, ry, rz)))
            c.cx.oblige('contract', 'only updated between', c.st, not_(need))
            mark(c, 'rebuild')
        TF = lambda v, m, q: app('TF%d' % q, v + [m], 'R')
        def trav(c):
            ret, t, dt, v, m = c.args
            if not c.st.ghost.get('tree'): c.cx.oblige('contract', 'the tree is up to date when forces are computed', c.st, FALSE)
            for q in range(3): store(c.cx, c.st, Ptr(ret.r, add(ret.o, I(8 * q))), TF(vertex_at(c, v), m, q), DOUBLE)
        def result(st, b, what):
            x = [Y(add(mul(I(k), N), b)) for k in range(3)]
            for q in range(3):
                w.cx.oblige('post', '%s: d(r%s)/dt = v' % (what, 'xyz'[q]), st, eq(w.rd(fd, add(mul(I(q), N), b), st), Y(add(mul(I(q + 3), N), b))))
                w.cx.oblige('post', '%s: d(v%s)/dt = traversal force / mass' % (what, 'xyz'[q]), st, eq(w.rd(fd, add(mul(I(q + 3), N), b), st), div(TF(x, M(b), q), M(b))))
        def frames(st, what):
            n6 = mul(N, I(6))
            unchanged(w, S, what + ': y', yd, Y, n6, st); unchanged(w, S, what + ': unrelated buffer', w.buf_data(o), arr('o'), n6, st)
            unchanged(w, S, what + ': masses', Ptr(A['mass'], 0), M, N, st)
        def visiting(c):
            """traversal with a visitor: its contract says each body b once with its position and mass; one such call for an arbitrary b"""
            fn = visitor_of(w, c.name); cl = c.args[1] if len(c.args) > 1 else Ptr(Region('closure'), 0)
            seen.append(1)
            mark(c, 'visited')
            if c.st.ghost['tree'][0] not in ('build', 'rebuild') or len(c.st.ghost['tree']) != 2: c.cx.oblige('contract', 'one traversal, after the tree is made', c.st, FALSE)
            b = fresh('b', 'I'); s = c.st.copy(); s.assume(and_(ge(b, I(0)), lt(b, N)))
            pre = s.copy()
            v = Region('leaf', I(24), None, {}); s.mem[v.id] = (('C', {8 * q: (Y(add(mul(I(q), N), b)), 8) for q in range(3)}),)
            for s2, _ in c.ex.call_function(fn, [cl, b, Ptr(v, 0), M(b)], s, c.depth + 1):
                result(s2, b, 'visited body'); frames(s2, 'visited body')
                j = fresh('j', 'I'); s3 = s2.copy(); s3.assume(and_(ge(j, I(0)), lt(j, N), ne(j, b)))
                for q in range(6): w.cx.oblige('post', 'visited body: other bodies keep component %d' % q, s3, eq(w.rd(fd, add(mul(I(q), N), j), s3), arr('f')(add(mul(I(q), N), j))))
            return None
        for t in ('nbody_space_tree', 'nbody_space_heap', 'nbody_space_heap_stackless'):
            w.cx.contracts[t + '::build'] = build; w.cx.contracts[t + '::rebuild'] = rebuild; w.cx.contracts[t + '::traverse'] = trav
            w.cx.contracts[t + '::is_empty'] = lambda c: eq(empty, I(1))
        w.cx.models.insert(0, (re.compile(r'^void nbody_space_(tree|heap|heap_stackless)::traverse<'), visiting))
        sat_check(w, S, cls)
        S.target(cls + '::fcompute', 'nbody_engine_simple_bh::space_subdivided_fcompute<%s>' % tree)
        outs = w.call(w.vfn(cls, 'fcompute'), [e, w.dref(var('t', 'R')), y, f])
        for st, _ in outs:
            if nested:
                w.goal('the bodies are visited through the tree once', st, TRUE if len(st.ghost.get('tree', ())) == 2 else FALSE)
            else:
                i = fresh('i', 'I'); s = st.copy(); s.assume(and_(ge(i, I(0)), lt(i, N)))
                result(s, i, cls); frames(st, cls)
    return sec

def sections(tier):
    return [('heap traversal by index', lambda S: heap_trav(S, 'nbody_space_heap_stackless', 'walk')), ('walk and halving lemmas', s_walk_lemma),
            ('heap traversal by stack', lambda S: heap_trav(S, 'nbody_space_heap', 'stack')), ('tree traversal by stack', s_tree_trav),
            ('heap visits', s_heap_visit('nbody_space_heap')), ('stackless heap visits', s_heap_visit('nbody_space_heap_stackless')), ('tree visits', s_tree_visit)] + \
           [('%s, %s' % (c, 'nested' if n else 'cycle'), s_engine(c, n)) for c in ENGINES for n in (False, True)]
