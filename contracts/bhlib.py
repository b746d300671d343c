"""Contracts of the Barnes-Hut structures: node update, build, rebuild, traversal; shared by C11 and C21."""
import os
from contracts.englib import *
from nbv import loops
from nbv.symex import _read
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = ['nbody_data.cpp', 'nbody_engine.cpp', 'nbody_engine_simple.cpp', 'nbody_engine_openmp.cpp', 'nbody_engine_simple_bh.cpp',
       'nbody_space_heap.cpp', 'nbody_space_heap_stackless.cpp', 'nbody_space_tree.cpp']
EXTRACT = dict(only=SRC, extra=('-fno-access-control',), extra_src=(ROOT + '/harness/inst/bh.cpp',))
U64 = Ty('int', 64)
NOBODY = -1
def nobody(v): return or_(eq(v, I(-1)), eq(v, I((1 << 64) - 1)))

def off(w, n):
    t, v, k = w.m.global_init('nbv_' + n)
    return int(v[1])

def find(w, rx, params=None):
    import re
    c = [k for k in w.m.funcs if re.search(rx, base_name(w.cx.dem(k))) and (params is None or len(w.m.funcs[k].params) == params) and 'omp' not in w.cx.dem(k).split(')')[-1] and 'lambda' not in w.cx.dem(k) and '::$_' not in w.cx.dem(k)]
    if len(c) != 1: raise Unsupported('%d functions match %s' % (len(c), rx))
    return c[0]

class Heap:
    """an nbody_space_heap over N bodies with arbitrary contents"""
    F = (('center', 3), ('mass', 1), ('radius', 1), ('min', 3), ('max', 3), ('body', 1))
    def __init__(self, w, N, tag='H', leaves=False):
        self.w = w; self.N = N; self.size = mul(N, I(2)); self.tag = tag
        st = w.st; self.r = Region('heap', None, None, {}); cells = {}; self.A = {}
        for f, n in self.F:
            by = mul(self.size, I(8 * n))
            a = Region('%s.%s' % (tag, f), by, default_base('%s_%s' % (tag, f)), {'elem': U64 if f == 'body' else DOUBLE})
            self.A[f] = a; o = off(w, 'h_' + f)
            cells[o] = (Ptr(a, 0), 8); cells[o + 8] = (Ptr(a, by), 8); cells[o + 16] = (Ptr(a, by), 8)
        if leaves:
            def bbase(cx, st, o, ty, size):
                j = exact_div(o, 8); t = app('%s_body.i64' % tag, [j], 'I')
                st.fact(implies(and_(ge(j, N), lt(j, self.size)), and_(ge(t, I(0)), lt(t, N))))
                return t
            self.A['body'].base = bbase
        self.ratio = var(tag + '_ratio', 'R'); cells[off(w, 'h_ratio')] = (self.ratio, 8)
        st.mem[self.r.id] = (('C', cells),)
        self.p = Ptr(self.r, 0)
    def at(self, f, i, q=0, st=None):
        n = dict(self.F)[f]
        return self.w.rd(Ptr(self.A[f], 0), add(mul(i, I(n)), I(q)), st, U64 if f == 'body' else DOUBLE)
    def old(self, f, i, q=0):
        n = dict(self.F)[f]
        if f == 'body': return app('%s_body.i64' % self.tag, [i], 'I')
        return app('%s_%s' % (self.tag, f), [add(mul(i, I(n)), I(q))], 'R')

def tmin(a, b): return ite(lt(b, a), b, a)
def tmax(a, b): return ite(lt(a, b), b, a)
def length(v): return sqrt(add(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(v[2], v[2])))

def node_spec(L, Rr, ratio):
    """mass, centre, box and squared opening radius of a node from those of its children (records (mass, centre, min, max))"""
    m = add(L['mass'], Rr['mass'])
    c = [div(add(mul(L['center'][q], L['mass']), mul(Rr['center'][q], Rr['mass'])), m) for q in range(3)]
    lo = [tmin(L['min'][q], Rr['min'][q]) for q in range(3)]
    hi = [tmax(L['max'][q], Rr['max'][q]) for q in range(3)]
    r = add(mul(length([sub(hi[q], lo[q]) for q in range(3)]), R(Fraction(1, 2))),
            length([sub(mul(add(hi[q], lo[q]), R(Fraction(1, 2))), c[q]) for q in range(3)]))
    return dict(mass=m, center=c, min=lo, max=hi, radius=mul(mul(r, r), ratio))

def s_heap_update(S):
    w = S.world(); N = w.N(lo=2); H = Heap(w, N)
    i = var('i', 'I'); w.fact(and_(ge(i, I(1)), lt(i, N)))
    sat_check(w, S, 'heap update')
    l, r = mul(i, I(2)), add(mul(i, I(2)), I(1))
    name = find(w, r'^nbody_space_heap::update$')
    w.call1(name, [H.p, i, l, r]); S.target('nbody_space_heap::update')
    rec = lambda k: dict(mass=H.old('mass', k), center=[H.old('center', k, q) for q in range(3)], min=[H.old('min', k, q) for q in range(3)], max=[H.old('max', k, q) for q in range(3)])
    sp = node_spec(rec(l), rec(r), H.ratio)
    st = w.st
    w.goal('update: mass is the sum of the children', st, eq(H.at('mass', i), sp['mass']))
    for q in range(3):
        w.goal('update: mass centre %d' % q, st, eq(H.at('center', i, q), sp['center'][q]))
        w.goal('update: box minimum %d' % q, st, eq(H.at('min', i, q), sp['min'][q]))
        w.goal('update: box maximum %d' % q, st, eq(H.at('max', i, q), sp['max'][q]))
    w.goal('update: opening radius', st, eq(H.at('radius', i), sp['radius']))
    j = var('j', 'I'); s = st.copy(); s.assume(and_(ge(j, I(0)), lt(j, H.size), ne(j, i)))
    for f, n in H.F:
        for q in range(n):
            w.goal('update: other nodes keep %s %d' % (f, q), s, eq(H.at(f, j, q, s), H.old(f, j, q)))
    w.goal('update: the body number stays', st, eq(H.at('body', i), H.old('body', i)))


# ------------------------------------------------------------------ tree nodes
NF = (('left', 0), ('right', 0), ('center', 3), ('mass', 1), ('radius', 1), ('min', 3), ('max', 3), ('body', 1))
def node_region(w, tag, left=NULL, right=NULL, body=None):
    r = Region('node ' + tag, None, None, {}); c = {}
    c[off(w, 'n_left')] = (left, 8); c[off(w, 'n_right')] = (right, 8)
    for f, n in NF[2:]:
        for q in range(n):
            c[off(w, 'n_' + f) + 8 * q] = (((I(NOBODY) if body is None else body) if f == 'body' else var('%s_%s%d' % (tag, f, q), 'R')), 8)
    w.st.mem[r.id] = (('C', c),)
    return r
def node_at(w, r, f, q=0, st=None):
    return w.cell(Ptr(r, I(off(w, 'n_' + f) + 8 * q)), {'left': PTR, 'right': PTR, 'body': U64}.get(f, DOUBLE), st)
def node_rec(w, r, st=None):
    return dict(mass=node_at(w, r, 'mass', 0, st), **{f: [node_at(w, r, f, q, st) for q in range(3)] for f in ('center', 'min', 'max')})
def node_goals(w, st, what, r, sp):
    w.goal('%s: mass' % what, st, eq(node_at(w, r, 'mass', 0, st), sp['mass']))
    for q in range(3):
        for f in ('center', 'min', 'max'): w.goal('%s: %s %d' % (what, f, q), st, eq(node_at(w, r, f, q, st), sp[f][q]))
    w.goal('%s: opening radius' % what, st, eq(node_at(w, r, 'radius', 0, st), sp['radius']))

def s_tree_update(S):
    w = S.world()
    L = node_region(w, 'L'); Rr = node_region(w, 'R'); X = node_region(w, 'X', Ptr(L, 0), Ptr(Rr, 0))
    ratio = var('ratio', 'R'); a, b = node_rec(w, L), node_rec(w, Rr)
    w.call1(find(w, r'^nbody_space_tree::node::update$'), [Ptr(X, 0), ratio]); S.target('nbody_space_tree::node::update')
    node_goals(w, w.st, 'update', X, node_spec(a, b, ratio))
    w.goal('update: the node stays an inner node', w.st, nobody(node_at(w, X, 'body')))
    for t, r, rec in (('left', L, a), ('right', Rr, b)):
        now = node_rec(w, r)
        w.goal('update: %s child unchanged' % t, w.st, and_(*[eq(now['mass'], rec['mass'])] + [eq(now[f][q], rec[f][q]) for f in ('center', 'min', 'max') for q in range(3)]))

# ------------------------------------------------------------------ OpenMP tasks: run at the next taskwait (never earlier)
def task_models(w):
    def alloc(c):
        fn = c.args[5]
        sh = Region('task.shareds', c.args[4]); t = Region('task', c.args[3])
        c.st.mem[t.id] = (('C', {0: (Ptr(sh, 0), 8)}),); c.st.mem[sh.id] = ()
        t.meta['entry'] = fn.name
        return Ptr(t, 0)
    def task(c):
        c.st.ghost['tasks'] = c.st.ghost.get('tasks', ()) + (c.args[2],)
        return I(0)
    def wait(c):
        ts = c.st.ghost.get('tasks', ()); c.st.ghost['tasks'] = ()
        sts = [c.st]
        for t in ts:
            nx = []
            for s in sts: nx += [x for x, _ in c.ex.call_function(t.r.meta['entry'], [I(0), t], s, c.depth + 1)]
            sts = nx
        return [(s, I(0)) for s in sts]
    w.cx.contracts['__kmpc_omp_task_alloc'] = alloc
    w.cx.contracts['__kmpc_omp_task'] = task
    w.cx.contracts['__kmpc_omp_taskwait'] = wait
    w.cx.assumptions.add('OpenMP runtime: a task runs between its creation and the next taskwait of its parent')

# ------------------------------------------------------------------ aggregates over a range of an index array
class Agg:
    """sum of masses, sum of mass*position, minimum and maximum of positions over entries [lo, lo+n) of version v of the index array.
    Laws used (of finite sums and extrema): a range is the concatenation of its parts, and a permutation of a range changes nothing."""
    def __init__(self, v, lo, n):
        self.m = app('MS_%s' % v, [lo, n], 'R')
        self.c = [app('CS%d_%s' % (q, v), [lo, n], 'R') for q in range(3)]
        self.lo = [app('MN%d_%s' % (q, v), [lo, n], 'R') for q in range(3)]
        self.hi = [app('MX%d_%s' % (q, v), [lo, n], 'R') for q in range(3)]
    @staticmethod
    def join(a, b):
        r = Agg.__new__(Agg)
        r.m = add(a.m, b.m); r.c = [add(x, y) for x, y in zip(a.c, b.c)]
        r.lo = [tmin(x, y) for x, y in zip(a.lo, b.lo)]; r.hi = [tmax(x, y) for x, y in zip(a.hi, b.hi)]
        return r
    @staticmethod
    def body(m, x):
        r = Agg.__new__(Agg); r.m = m; r.c = [mul(m, t) for t in x]; r.lo = list(x); r.hi = list(x)
        return r
    def rec(self, ratio):
        c = [div(self.c[q], self.m) for q in range(3)]
        r = add(mul(length([sub(self.hi[q], self.lo[q]) for q in range(3)]), R(Fraction(1, 2))),
                length([sub(mul(add(self.hi[q], self.lo[q]), R(Fraction(1, 2))), c[q]) for q in range(3)]))
        return dict(mass=self.m, center=c, min=self.lo, max=self.hi, radius=mul(mul(r, r), ratio))

class Build:
    """one activation of a recursive build, the recursive calls by contract"""
    def __init__(self, w, N, count, dim):
        self.w = w; self.N = N; self.count = count; self.dim = dim; self.calls = []; self.sorted = []
        self.ind = Region('indices', mul(count, I(8)), default_base('IDX0'), {'elem': U64})
        self.r = [Region('r' + x, mul(N, I(8)), default_base('r' + x), {'elem': DOUBLE}) for x in 'xyz']
        self.mass = Region('mass', mul(N, I(8)), default_base('m'), {'elem': DOUBLE})
        self.args = [count, Ptr(self.ind, 0)] + [Ptr(r, 0) for r in self.r] + [Ptr(self.mass, 0)]
        import re
        w.cx.models.insert(0, (re.compile(r'^void std::nth_element<'), self.nth))
        task_models(w)
        b = app('IDX0.i64', [I(0)], 'I'); w.fact(and_(ge(b, I(0)), lt(b, N)))
    def nth(self, c):
        f, n, l = c.args[:3]
        if not (isinstance(f, Ptr) and isinstance(l, Ptr) and f.r is self.ind and l.r is self.ind): raise Unsupported('partial sort of another array')
        c.cx.oblige('contract', 'the partial sort stays in the given range', c.st, and_(ge(f.o, I(0)), le(l.o, mul(self.count, I(8)))))
        c.cx.oblige('contract', 'the split point lies in the range', c.st, and_(ge(n.o, f.o), le(n.o, l.o)))
        k = c.st.ghost.get('ver', 0) + 1; c.st.ghost['ver'] = k
        c.st.ghost['dim_sorted'] = c.st.ghost.get('dim_sorted', ()) + (self.dim,)
        def rd(cx, st, o, ty, size): return app('IDX%d.i64' % k, [exact_div(o, 8)], 'I')
        c.st.mem[self.ind.id] = (('X', rd),)
        return None
    def check(self, c, count, rest, lo):
        """precondition of a recursive call: a proper non-empty part, the same arrays"""
        cx = c.cx; st = c.st
        if not (isinstance(lo, Ptr) and lo.r is self.ind): raise Unsupported('recursive call on another index array')
        l = exact_div(lo.o, 8)
        cx.oblige('contract', 'recursive call: a non-empty proper part', st, and_(ge(count, I(1)), lt(count, self.count), ge(l, I(0)), le(add(l, count), self.count)))
        same_ = all(isinstance(a, Ptr) and a.r is r and a.o is I(0) for a, r in zip(rest, self.r + [self.mass]))
        cx.oblige('contract', 'recursive call: same coordinate and mass arrays', st, TRUE if same_ else FALSE)
        a = Agg(st.ghost.get('ver', 0), l, count)
        st.fact(lt(R(0), a.m))
        st.ghost['calls'] = st.ghost.get('calls', ()) + ((l, count),)
        return a
    def cover(self, st):
        cs = st.ghost.get('calls', ())
        self.w.cx.oblige('inv', 'exactly two recursive calls', st, TRUE if len(cs) == 2 else FALSE)
        if len(cs) != 2: return None
        (l1, n1), (l2, n2) = cs
        self.w.goal('the two parts make up the whole range', st, or_(and_(eq(l1, I(0)), eq(l2, n1), eq(add(n1, n2), self.count)), and_(eq(l2, I(0)), eq(l1, n2), eq(add(n1, n2), self.count))))
        self.w.goal('no task left unfinished', st, TRUE if not st.ghost.get('tasks') else FALSE)
        return Agg.join(Agg(st.ghost.get('ver', 0), l1, n1), Agg(st.ghost.get('ver', 0), l2, n2))
    def leaf(self):
        b = app('IDX0.i64', [I(0)], 'I')
        return b, Agg.body(app('m', [b], 'R'), [app('r' + x, [b], 'R') for x in 'xyz'])

def s_tree_build(case, dim):
    def sec(S):
        w = S.world(); N = w.N()
        count = I(1) if case == 'leaf' else var('count', 'I')
        if case != 'leaf': w.fact(and_(ge(count, I(2)), le(count, N), le(count, I(64)) if case == 'small' else gt(count, I(64))))
        B = Build(w, N, count, dim); ratio = var('ratio', 'R')
        S.target('nbody_space_tree::node::build')
        X = Region('node X', None, None, {}); w.call1([k for k in w.m.funcs if base_name(w.cx.dem(k)) == 'nbody_space_tree::node::node'][0], [Ptr(X, 0)])
        name = find(w, r'^nbody_space_tree::node::build$')
        def rec(c):
            t, n, lo, rx, ry, rz, m, dm, ra = c.args
            if not isinstance(t, Ptr): raise Unsupported('recursive build of %r' % (t,))
            st = c.st
            c.cx.oblige('contract', 'recursive call: fresh node', st, and_(nobody(node_at(w, t.r, 'body', 0, st)), eq(node_at(w, t.r, 'radius', 0, st), R(0))))
            c.cx.oblige('contract', 'recursive call: valid dimension and same ratio', st, and_(ge(dm, I(0)), lt(dm, I(3)), eq(ra, ratio)))
            a = B.check(c, n, [rx, ry, rz, m], lo).rec(ratio)
            for f, k in NF[2:]:
                if f == 'body': loops.set_cell(st, t.r, off(w, 'n_body'), fresh('bodyn', 'I'), 8); continue
                for q in range(k): loops.set_cell(st, t.r, off(w, 'n_' + f) + 8 * q, a[f] if k == 1 else a[f][q], 8)
            st.ghost['nodes'] = st.ghost.get('nodes', ()) + (t.r,)
            return None
        top = [True]
        def entry(c): return rec(c)
        w.cx.contracts[name] = entry
        sat_check(w, S, 'tree build')
        outs = w.call(name, [Ptr(X, 0)] + B.args + [I(dim), ratio])
        if not outs: raise Unsupported('no outcome')
        for st, _ in outs:
            if case == 'leaf':
                b, a = B.leaf()
                node_goals(w, st, 'leaf', X, dict(a.rec(ratio), center=a.lo, radius=R(0)))
                w.goal('leaf: body number', st, eq(node_at(w, X, 'body', 0, st), b))
                w.goal('leaf: no children', st, and_(ptr_eq(node_at(w, X, 'left', 0, st), NULL), ptr_eq(node_at(w, X, 'right', 0, st), NULL)))
            else:
                a = B.cover(st)
                if a is None: continue
                node_goals(w, st, 'node', X, a.rec(ratio))
                w.goal('node: no body', st, nobody(node_at(w, X, 'body', 0, st)))
                l, r = node_at(w, X, 'left', 0, st), node_at(w, X, 'right', 0, st)
                ns = set(st.ghost.get('nodes', ()))
                w.goal('node: the two built nodes are its two children', st, TRUE if isinstance(l, Ptr) and isinstance(r, Ptr) and len(ns) == 2 and {l.r, r.r} == ns else FALSE)
    return sec

def s_tree_rebuild(case):
    def sec(S):
        w = S.world(); N = w.N(); ratio = var('ratio', 'R'); count = var('count', 'I')
        w.fact(and_(ge(count, I(1)), le(count, N), le(count, I(64)) if case != 'large' else gt(count, I(64))))
        B = Build(w, N, count, 0); name = find(w, r'^nbody_space_tree::node::rebuild$'); S.target('nbody_space_tree::node::rebuild')
        body = None
        if case == 'leaf':
            body = var('b', 'I'); w.fact(and_(ge(body, I(0)), lt(body, N)))
        L = node_region(w, 'L'); Rr = node_region(w, 'R')
        X = node_region(w, 'X', *(() if case == 'leaf' else (Ptr(L, 0), Ptr(Rr, 0))), body=body)
        A = {L.id: Agg('new', I(1), I(0)), Rr.id: Agg('new', I(2), I(0))}
        for r in (L, Rr):      # the masses of a subtree do not change in a rebuild
            loops.set_cell(w.st, r, off(w, 'n_mass'), A[r.id].m, 8); w.fact(lt(R(0), A[r.id].m))
        def rec(c):
            t, n, rx, ry, rz, ra = c.args; st = c.st
            if not isinstance(t, Ptr) or t.r.id not in A: raise Unsupported('recursive rebuild of %r' % (t,))
            c.cx.oblige('contract', 'recursive call: same coordinates and ratio', st, and_(eq(ra, ratio), TRUE if all(isinstance(p, Ptr) and p.r is r and p.o is I(0) for p, r in zip((rx, ry, rz), B.r)) else FALSE))
            a = A[t.r.id].rec(ratio)
            for f, k in NF[2:]:
                if f in ('body', 'mass'): continue
                for q in range(k): loops.set_cell(st, t.r, off(w, 'n_' + f) + 8 * q, a[f] if k == 1 else a[f][q], 8)
            st.ghost['nodes'] = st.ghost.get('nodes', ()) + (t.r.id,)
            return None
        w.cx.contracts[name] = rec
        for st, _ in w.call(name, [Ptr(X, 0), count] + [Ptr(r, 0) for r in B.r] + [ratio]):
            if case == 'leaf':
                x = [app('r' + q, [body], 'R') for q in 'xyz']
                for q in range(3):
                    for f in ('center', 'min', 'max'): w.goal('leaf: %s %d follows the body' % (f, q), st, eq(node_at(w, X, f, q, st), x[q]))
                w.goal('leaf: mass, radius and body stay', st, and_(eq(node_at(w, X, 'mass', 0, st), var('X_mass0', 'R')), eq(node_at(w, X, 'radius', 0, st), var('X_radius0', 'R')), eq(node_at(w, X, 'body', 0, st), body)))
            else:
                w.goal('both children rebuilt once', st, TRUE if sorted(st.ghost.get('nodes', ())) == sorted(A) else FALSE)
                w.goal('no task left unfinished', st, TRUE if not st.ghost.get('tasks') else FALSE)
                node_goals(w, st, 'node', X, Agg.join(A[L.id], A[Rr.id]).rec(ratio))
                w.goal('node: no body', st, nobody(node_at(w, X, 'body', 0, st)))
    return sec


def grow_loop(B):
    """loop of build_p that looks for the full level: only 1 <= full_level and, once doubled, full_level <= 2*(count/2) matter"""
    def h(ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]
        if cval(B.count) is not None: return None
        cells = written_cells(ex, f, depth, header, st, env)
        phis = [i.res for i in f.blocks[header].insts if i.op == 'phi']
        if len(cells) + len(phis) != 1: raise Unsupported('loop shape of the level search')
        half = idiv(B.count, I(2))
        pow2 = lambda x: eq(app('pow2', [x], 'I'), I(1))
        inv = lambda x: and_(ge(x, I(1)), le(x, mul(half, I(2))), pow2(x))
        st.fact(pow2(I(1)))
        cx.oblige('inv', 'level search: invariant on entry', st, inv(env[phis[0]] if phis else cells[0][2]))
        x = fresh('level', 'I'); s = st.copy(); e = dict(env)
        if phis: e[phis[0]] = x
        else: loops.set_cell(s, cells[0][0], cells[0][1], x, 8)
        s.assume(inv(x))
        s.fact(implies(pow2(x), pow2(mul(x, I(2)))))
        s.fact(implies(and_(pow2(x), le(x, B.count), lt(B.count, mul(x, I(2)))), eq(x, B.full)))     # there is only one such power of two
        out = []
        for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
            if dest == header:
                e3 = ex.phis(f, header, pr, e2, s2)
                v = e3[phis[0]] if phis else load(cx, s2, Ptr(cells[0][0], I(cells[0][1])), U64)
                cx.oblige('inv', 'level search: invariant kept', s2, inv(v))
            else: out.append((dest, pr, s2, e2))
        return out
    return h

def written_cells(ex, f, depth, header, st, env):
    """(region, offset, entry value) of the memory cells an iteration changes, found by running one"""
    cx = ex.cx; s = st.copy(); s.mem = dict(s.mem)
    cx.mute += 1; cx.in_inv = True
    try: outs = loops.fork(ex, f, depth, header, f.loops[header], s, dict(env))
    finally: cx.mute -= 1; cx.in_inv = False
    regs = {}
    for dest, pr, s2, e2 in outs:
        if dest != header: continue
        for rid, lg in s2.mem.items():
            if rid in st.mem and st.mem[rid] is not lg and st.mem[rid]: regs[rid] = lg
    out = []
    for v in env.values():
        r = v.r if isinstance(v, Ptr) else None
        if r is not None and r.id in regs and not any(o[0] is r for o in out):
            old = st.mem[r.id]
            if len(old) == 1 and old[0][0] == 'C':
                for o, (val, sz) in old[0][1].items(): out.append((r, o, val))
    return out

class HeapBuild(Build):
    def start(self, H, idx):
        self.H = H; self.idx = idx; w = self.w
        b = lambda j, k: app('below', [j, k], 'I')
        l, r = mul(idx, I(2)), add(mul(idx, I(2)), I(1))
        if cval(self.count) is None:
            p = var('p', 'I'); self.full = mul(p, I(2))     # the power of two with full <= count < 2*full
            w.fact(and_(ge(p, I(1)), le(self.full, self.count), lt(self.count, mul(self.full, I(2)))))
        for j, k in ((l, r), (r, l), (idx, l), (idx, r)): w.fact(eq(b(j, k), I(0)))
    def effect(self, c, k, a):
        """the arrays after a recursive call for node k: new contents below k, the record of the range at k itself"""
        H = self.H; rec = a.rec(H.ratio); n_ = c.st.ghost.get('eff', 0) + 1; c.st.ghost['eff'] = n_
        for f, n in H.F:
            def rd(cx, st, o, ty, size, f=f, n=n):
                for q in range(n):
                    try: j = exact_div(sub(o, I(8 * q)), 8 * n)
                    except Unsupported: continue
                    if cx.decide(st, eq(j, k)) is True:
                        if f == 'body': return fresh('bodyn', 'I')
                        return rec[f] if n == 1 else rec[f][q]
                    if cx.decide(st, eq(app('below', [j, k], 'I'), I(0))) is True: return None
                    raise Unsupported('read of a node inside a subtree built by contract')
                raise Unsupported('unaligned heap access')
            c.st.mem[H.A[f].id] = log(c.st, H.A[f]) + (('X', rd),)

def s_heap_build(case, dim):
    def sec(S):
        w = S.world(); N = w.N(); H = Heap(w, N)
        count = I(1) if case == 'leaf' else I(case) if isinstance(case, int) else var('count', 'I')
        if not isinstance(case, int) and case != 'leaf': w.fact(and_(ge(count, I(2)), le(count, N), le(count, I(64)) if case == 'small' else gt(count, I(64))))
        if isinstance(case, int): w.fact(ge(N, count))
        idx = var('idx', 'I'); w.fact(and_(ge(idx, I(1)), lt(idx, mul(N, I(2))) if case == 'leaf' else lt(idx, N)))
        B = HeapBuild(w, N, count, dim); B.start(H, idx)
        S.target('nbody_space_heap::build_p')
        name = find(w, r'^nbody_space_heap::build_p$')
        def rec(c):
            t, n, lo, rx, ry, rz, m, k, dm = c.args
            c.cx.oblige('contract', 'recursive call: same heap, valid dimension', c.st, and_(ge(dm, I(0)), lt(dm, I(3)), TRUE if isinstance(t, Ptr) and t.r is H.r else FALSE))
            a = B.check(c, n, [rx, ry, rz, m], lo)
            B.effect(c, k, a)
            c.st.ghost['kids'] = c.st.ghost.get('kids', ()) + (k,)
            return None
        w.cx.contracts[name] = rec
        w.cx.loop_inv['nbody_space_heap::build_p'] = grow_loop(B)
        sat_check(w, S, 'heap build')
        outs = w.call(name, [H.p] + B.args + [idx, I(dim)])
        if not outs: raise Unsupported('no outcome')
        for st, _ in outs:
            i = idx
            if case == 'leaf':
                b, a = B.leaf(); rc = dict(a.rec(H.ratio), center=a.lo, radius=R(0))
                w.goal('leaf: body number', st, eq(H.at('body', i, 0, st), b))
            else:
                a = B.cover(st)
                if a is None: continue
                ks = st.ghost.get('kids', ())
                w.goal('node: the parts go to its two children', st, or_(and_(eq(ks[0], mul(i, I(2))), eq(ks[1], add(mul(i, I(2)), I(1)))), and_(eq(ks[1], mul(i, I(2))), eq(ks[0], add(mul(i, I(2)), I(1))))))
                nl = [n for k, (l, n) in zip(ks, st.ghost['calls']) if w.cx.decide(st, eq(k, mul(i, I(2)))) is True]
                if not isinstance(case, int):
                    # leaves on the two lowest levels that lie below the left child: [n, 2F) and [2F, 2n) cut at 3F/2 and 3F
                    F = B.full; h = var('p', 'I')
                    a1 = sub(add(F, h), count); a2 = sub(mul(count, I(2)), mul(F, I(2)))
                    want = add(ite(lt(a1, I(0)), I(0), a1), ite(lt(F, a2), F, a2))
                    w.goal('node: the left part has as many bodies as the left subtree of a complete heap has leaves', st, eq(nl[0], want) if len(nl) == 1 else FALSE)
                else:
                    w.goal('node: the left part has as many bodies as the left subtree of a complete heap has leaves', st, TRUE if len(nl) == 1 and cval(nl[0]) == left_leaves(case) else FALSE)
                rc = a.rec(H.ratio)
                w.goal('node: body number stays', st, eq(H.at('body', i, 0, st), H.old('body', i)))
            for f in ('mass', 'radius'): w.goal('%s: %s' % ('leaf' if case == 'leaf' else 'node', f), st, eq(H.at(f, i, 0, st), rc[f]))
            for q in range(3):
                for f in ('center', 'min', 'max'): w.goal('%s: %s %d' % ('leaf' if case == 'leaf' else 'node', f, q), st, eq(H.at(f, i, q, st), rc[f][q]))
            if isinstance(case, int): continue
            j = var('j', 'I'); s = st.copy(); s.assume(and_(ge(j, I(0)), lt(j, H.size), ne(j, i)))
            for k in (mul(i, I(2)), add(mul(i, I(2)), I(1))): s.assume(and_(eq(app('below', [j, k], 'I'), I(0)), ne(j, k)))
            for f, n in H.F:
                for q in range(n): w.goal('nodes outside the subtree keep %s %d' % (f, q), s, eq(H.at(f, j, q, s), H.old(f, j, q)))
    return sec
def left_leaves(n):
    """leaves below node 2 of the complete heap with n leaves (leaf indices n..2n-1), by definition"""
    c = 0
    for k in range(n, 2 * n):
        while k > 3: k //= 2
        c += k == 2
    return c
def s_heap_shape(S):
    """the same for small concrete counts against the definition by parent links (guards the closed form used above)"""
    for n in list(range(2, 14)) + [63, 64, 65, 95, 96, 97, 127, 128, 129]:
        s_heap_build(n, 0)(S)


def coords(w, N):
    r = [Region('r' + x, mul(N, I(8)), default_base('r' + x), {'elem': DOUBLE}) for x in 'xyz']
    m = Region('mass', mul(N, I(8)), default_base('m'), {'elem': DOUBLE})
    return r, m
def same_arrays(ps, rs): return TRUE if all(isinstance(p, Ptr) and p.r is r and p.o is I(0) for p, r in zip(ps, rs)) else FALSE

def identity_goal(w, c, ind, N):
    i = fresh('i', 'I'); s = c.st.copy(); s.assume(and_(ge(i, I(0)), lt(i, N)))
    c.cx.oblige('contract', 'build: the index array lists every body once, in order', s, eq(w.rd(ind, i, s, U64), i) if isinstance(ind, Ptr) else FALSE)

def split(w, outs, gets):
    """the states of outs, taken apart until none of the given cells holds a pointer that depends on a condition"""
    work = [st for st, _ in outs]
    while work:
        st = work.pop(0)
        if w.cx.pv.valid(st.hyps(), FALSE): continue
        v = [x for x in (g(st) for g in gets) if type(x).__name__ == 'PIte']
        if not v: yield st; continue
        a = st.copy(); a.assume(v[0].c); b = st.copy(); b.assume(not_(v[0].c)); 
        work = [a, b] + work
def known(st, v):
    """a pointer whose condition is decided by the path"""
    while type(v).__name__ == 'PIte':
        h = st.hyps()
        if any(x is v.c for x in h): v = v.a
        elif any(x is not_(v.c) for x in h): v = v.b
        else: return v
    return v

def s_heap_top(fresh_heap):
    def sec(S):
        w = S.world(); N = w.N()
        r, m = coords(w, N); ratio = var('ratio', 'R')
        if fresh_heap: h = w.ctor('nbody_space_heap')
        else:
            M = var('M', 'I'); w.fact(and_(ge(M, I(1)), lt(M, I(1 << 28)))); h = Heap(w, M).p
        w.call1('nbody_space_heap::is_empty() const', [h]) if False else None
        seen = []
        def rec(c):
            t, n, ind, rx, ry, rz, mm, k, dm = c.args; st = c.st
            ok = and_(eq(n, N), eq(k, I(1)), ge(dm, I(0)), lt(dm, I(3)), same_arrays((rx, ry, rz, mm), r + [m]), TRUE if isinstance(t, Ptr) and t.r is h.r else FALSE)
            c.cx.oblige('contract', 'build: the recursion starts at the root with all bodies', st, ok)
            identity_goal(w, c, ind, N)
            seen.append(1); st.ghost['built'] = st.ghost.get('built', 0) + 1
            return None
        name = find(w, r'^nbody_space_heap::build_p$'); w.cx.contracts[name] = rec
        task_models(w)
        top = find(w, r'^nbody_space_heap::build$'); S.target('nbody_space_heap::build')
        outs = w.call(top, [h, N] + [Ptr(x, 0) for x in r] + [Ptr(m, 0), ratio])
        def ptr(st, o): return known(st, w.cell(Ptr(h.r, I(o)), PTR, st))
        for st in split(w, outs, [lambda st, o=off(w, 'h_' + f) + k: ptr(st, o) for f, n in Heap.F for k in (0, 8)]):
            w.goal('build: the recursion is started once', st, TRUE if st.ghost.get('built') == 1 else FALSE)
            w.goal('build: squared ratio', st, eq(w.cell(Ptr(h.r, I(off(w, 'h_ratio'))), DOUBLE, st), mul(ratio, ratio)))
            for f, n in Heap.F:
                b = ptr(st, off(w, 'h_' + f)); e = ptr(st, off(w, 'h_' + f) + 8)
                w.goal('build: %s has room for every node' % f, st, eq(sub(e.o, b.o), mul(N, I(16 * n))) if isinstance(b, Ptr) and isinstance(e, Ptr) and b.r is e.r else FALSE)
            b = ptr(st, off(w, 'h_body'))
            j = fresh('j', 'I'); s = st.copy(); s.assume(and_(ge(j, I(1)), lt(j, mul(N, I(2)))))
            w.goal('build: before the recursion no node has a body', s, nobody(w.rd(b, j, s, U64)))
            w.goal('is_empty: a built heap is not empty', st, eq(b2i(w.call('nbody_space_heap::is_empty() const', [h], st)[0][1]), I(0)))
    return sec
def b2i(v): return v if getattr(v, 'sort', 'I') != 'B' else ite(v, I(1), I(0))

def s_tree_top(S):
    for old in (False, True):
        w = S.world(); N = w.N(); r, m = coords(w, N); ratio = var('ratio', 'R')
        t = w.ctor('nbody_space_tree')
        w.goal('is_empty: a new tree is empty', w.st, ne(b2i(w.call('nbody_space_tree::is_empty() const', [t])[0][1]), I(0)))
        if old:
            o = node_region(w, 'O'); loops.set_cell(w.st, t.r, off(w, 't_root'), Ptr(o, 0), 8)
            w.cx.contracts['nbody_space_tree::node::~node'] = lambda c: None
        def rec(c):
            x, n, ind, rx, ry, rz, mm, dm, ra = c.args; st = c.st
            if not isinstance(x, Ptr): raise Unsupported('build of %r' % (x,))
            c.cx.oblige('contract', 'build: the recursion starts at a fresh root with all bodies', st, and_(eq(n, N), ge(dm, I(0)), lt(dm, I(3)), eq(ra, mul(ratio, ratio)), same_arrays((rx, ry, rz, mm), r + [m]), nobody(node_at(w, x.r, 'body', 0, st)), eq(node_at(w, x.r, 'radius', 0, st), R(0))))
            identity_goal(w, c, ind, N)
            st.ghost['built'] = st.ghost.get('built', ()) + (x.r,)
            return None
        w.cx.contracts[find(w, r'^nbody_space_tree::node::build$')] = rec
        task_models(w); S.target('nbody_space_tree::build')
        for st, _ in w.call(find(w, r'^nbody_space_tree::build$'), [t, N] + [Ptr(x, 0) for x in r] + [Ptr(m, 0), ratio]):
            root = w.cell(Ptr(t.r, I(off(w, 't_root'))), PTR, st)
            bl = st.ghost.get('built', ())
            w.goal('build: the root is what the recursion built', st, TRUE if isinstance(root, Ptr) and len(bl) == 1 and bl[0] is root.r else FALSE)
            w.goal('is_empty: a built tree is not empty', st, eq(b2i(w.call('nbody_space_tree::is_empty() const', [t], st)[0][1]), I(0)))
        # rebuild passes everything on
        w = S.world(); N = w.N(); r, m = coords(w, N); t = w.ctor('nbody_space_tree'); o = node_region(w, 'O')
        loops.set_cell(w.st, t.r, off(w, 't_root'), Ptr(o, 0), 8)
        def reb(c):
            x, n, rx, ry, rz, ra = c.args
            c.cx.oblige('contract', 'rebuild: the recursion starts at the root', c.st, and_(eq(ra, mul(ratio, ratio)), same_arrays((rx, ry, rz), r), TRUE if isinstance(x, Ptr) and x.r is o else FALSE))
            c.st.ghost['built'] = c.st.ghost.get('built', 0) + 1
            return None
        w.cx.contracts[find(w, r'^nbody_space_tree::node::rebuild$')] = reb
        task_models(w); S.target('nbody_space_tree::rebuild')
        for st, _ in w.call(find(w, r'^nbody_space_tree::rebuild$'), [t, N] + [Ptr(x, 0) for x in r] + [ratio]):
            w.goal('rebuild: started once', st, TRUE if st.ghost.get('built') == 1 else FALSE)

def s_heap_rebuild(S):
    w = S.world(); N = w.N(); H = Heap(w, N, leaves=True); r, m = coords(w, N); ratio = var('ratio', 'R')
    def g(f, j, q=0): return app('G%s%d' % (f, q), [j], 'R')
    def spec(j):
        """definition of the ghost record of node j"""
        l, rr = mul(j, I(2)), add(mul(j, I(2)), I(1))
        rec = lambda k: dict(mass=g('mass', k), **{f: [g(f, k, q) for q in range(3)] for f in ('center', 'min', 'max')})
        return node_spec(rec(l), rec(rr), mul(ratio, ratio))
    body = lambda j: app('H_body.i64', [j], 'I')
    def leaf_facts(st, j):
        st.fact(implies(and_(ge(j, N), lt(j, mul(N, I(2)))), and_(ge(body(j), I(0)), lt(body(j), N))))
    S.target('nbody_space_heap::rebuild', 'nbody_space_heap::update (inlined)')
    done = []
    def level(ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]
        if 'omp_outlined' in cx.dem(f.name) or 'omp' in f.name.split('rebuild')[-1]: return None
        phis = [i for i in f.blocks[header].insts if i.op == 'phi']
        cells = written_ints(ex, f, depth, header, st, env, H)
        if len(phis) + len(cells) != 1: raise Unsupported('shape of the level loop')
        get = lambda s, e: e[phis[0].res] if phis else load(cx, s, Ptr(cells[0][0], I(cells[0][1])), U64)
        done.append(1)
        def set_(s, e, v):
            if phis: e[phis[0].res] = v
            else: loops.set_cell(s, cells[0][0], cells[0][1], v, 8)
        inv = lambda v: and_(ge(v, I(1)), le(v, N))
        v0 = get(st, env)
        cx.oblige('inv', 'levels: starts at the leaves', st, eq(v0, N))
        # ghost record of a leaf = what the leaf loop stored
        j = fresh('j', 'I'); s = st.copy(); s.assume(and_(ge(j, N), lt(j, mul(N, I(2))))); leaf_facts(s, j)
        for q, x in enumerate('xyz'):
            for f_ in ('center', 'min', 'max'): cx.oblige('inv', 'levels: leaf %s %d is the position of its body' % (f_, q), s, eq(H.at(f_, j, q, s), app('r' + x, [body(j)], 'R')))
        for f_ in ('mass', 'radius', 'body'): cx.oblige('inv', 'levels: leaf %s stays' % f_, s, eq(H.at(f_, j, 0, s), H.old(f_, j)))
        v = fresh('level', 'I')
        def install(s, v):
            for f_, n in H.F:
                if f_ == 'body': continue
                prev_ = log(st, H.A[f_])
                def rd(cx_, s_, o, ty, size, f_=f_, n=n):
                    for q in range(n):
                        try: jj = exact_div(sub(o, I(8 * q)), 8 * n)
                        except Unsupported: continue
                        return vite(ge(jj, v), g(f_, jj, q), H.old(f_, jj, q))
                    raise Unsupported('unaligned heap access')
                s.mem[H.A[f_].id] = (('X', rd),)
        s = st.copy(); e = dict(env); s.assume(inv(v)); set_(s, e, v); install(s, v)
        out = []
        for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
            if dest != header:
                out.append((dest, pr, s2, e2)); continue
            e3 = ex.phis(f, header, pr, e2, s2); v2 = get(s2, e3)
            cx.oblige('inv', 'levels: moves towards the root', s2, and_(ge(v2, I(1)), lt(v2, v)))
            k = fresh('k', 'I')
            a = s2.copy(); a.assume(and_(ge(k, v2), lt(k, v)))
            sp = spec(k)
            cx.oblige('inv', 'levels: mass of an updated node', a, eq(H.at('mass', k, 0, a), sp['mass']))
            cx.oblige('inv', 'levels: radius of an updated node', a, eq(H.at('radius', k, 0, a), sp['radius']))
            for q in range(3):
                for f_ in ('center', 'min', 'max'): cx.oblige('inv', 'levels: %s %d of an updated node' % (f_, q), a, eq(H.at(f_, k, q, a), sp[f_][q]))
            for what, c_, fn_ in (('finished', and_(ge(k, v), lt(k, mul(N, I(2)))), g), ('later', and_(ge(k, I(0)), lt(k, v2)), H.old)):
                a = s2.copy(); a.assume(c_)
                for f_, n in H.F:
                    if f_ == 'body': continue
                    for q in range(n): cx.oblige('inv', 'levels: %s nodes keep %s %d' % (what, f_, q), a, eq(H.at(f_, k, q, a), fn_(f_, k, q)))
        return out
    w.cx.loop_inv['nbody_space_heap::rebuild'] = level
    outs = w.call(find(w, r'^nbody_space_heap::rebuild$'), [H.p, N] + [Ptr(x, 0) for x in r] + [ratio])
    for st, _ in outs:
        k = fresh('k', 'I'); a = st.copy(); a.assume(and_(ge(k, I(1)), lt(k, mul(N, I(2)))))
        for f_, n in H.F:
            if f_ == 'body': continue
            for q in range(n): w.goal('rebuild: every node has its record, %s %d' % (f_, q), a, eq(H.at(f_, k, q, a), g(f_, k, q)))
        w.goal('rebuild: bodies stay with their leaves', a, eq(H.at('body', k, 0, a), body(k)))
    if not done: raise Unsupported('level loop not found')

def written_ints(ex, f, depth, header, st, env, H):
    own = {a.id for a in H.A.values()} | {H.r.id}
    return [c for c in written_cells(ex, f, depth, header, st, env) if c[0].id not in own and isinstance(c[2], T) and c[2].sort == 'I']

def sections_structure(tier):
    return [('heap build, %s, dimension %d' % (c, d), s_heap_build(c, d)) for c in ('small', 'large') for d in range(3)] + [('heap build, leaf', s_heap_build('leaf', 0)), ('heap shape', s_heap_shape),
        ('heap build from scratch', s_heap_top(True)), ('heap build over an old heap', s_heap_top(False)), ('heap rebuild', s_heap_rebuild), ('tree build and rebuild', s_tree_top)] + [('heap update', s_heap_update), ('tree update', s_tree_update)] + \
        [('tree build, %s, dimension %d' % (c, d), s_tree_build(c, d)) for c in ('small', 'large') for d in range(3)] + [('tree build, leaf', s_tree_build('leaf', 0))] + \
        [('tree rebuild, ' + c, s_tree_rebuild(c)) for c in ('leaf', 'small', 'large')]
