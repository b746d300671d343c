"""C19: the OpenCL engines compute what the CPU engines compute: every kernel by contract for one arbitrary work-item, the host code concretely."""
from contracts.englib import *
from contracts import bhlib
from contracts.c21 import F
from nbv import loops
HARNESS = 'c19.cpp'
HARNESS_GROUPS = ['devices', 'operations', 'forces', 'tree', 'solve']
HARNESS_OPENCL = True
HARNESS_QRC = ['nbody/opencl.qrc']
HARNESS_FLAGS = ['-rdynamic']
HARNESS_LIBS = ['-ldl']
BLOCK = 64
EXTRACT = dict(cl=dict(block=BLOCK, version=120))
ASSUME = ['one work-item with an arbitrary id is verified; each kernel writes only elements owned by its id (proved), so the whole range is the elementwise result in any order',
          'a barrier makes the local stores of all work-items of a group visible to all of them; the kernel is launched with a local size equal to its block size (checked concretely)',
          'OpenCL built-ins (get_*_id, barrier, sqrt, min, max, fabs, distance) by their specification; fewer than 2^27 bodies, so that every index fits an int']
BOUNDED = ['host code (kernel arguments, ranges, offsets per device, events, transfers): concrete runs of the real host code and kernels on a stand-in platform with 1 to 8 devices, deferred commands and work-items in random order',
           'the program is verified as an OpenCL 1.x compiler sees it; block size 64']
LIM = 1 << 27
I32 = Ty('int', 32)

def cl_world(S):
    w = S.world(); cx = w.cx; C = cx.contracts
    w.gid = var('gid', 'I'); w.gsize = var('gsize', 'I'); w.lid = var('lid', 'I')
    w.fact(and_(ge(w.gid, I(0)), lt(w.gid, w.gsize), lt(w.gsize, I(LIM * 8)))); w.fact(and_(ge(w.lid, I(0)), lt(w.lid, I(BLOCK))))
    for n, v in (('_Z13get_global_idj', w.gid), ('_Z12get_local_idj', w.lid), ('_Z15get_global_sizej', w.gsize), ('_Z14get_local_sizej', I(BLOCK))):
        C[n] = lambda c, v=v: v
    def real(n, fn):
        def h(c):
            if cx.fpmode != 'real': raise Unsupported('%s in bit-exact mode' % n)
            return fn(*c.args)
        C[n] = h
    real('_Z4sqrtd', sqrt); real('_Z4fabsd', fabs)
    real('_Z3mindd', lambda a, b: ite(lt(b, a), b, a)); real('_Z3maxdd', lambda a, b: ite(lt(a, b), b, a))
    real('_Z4fmindd', lambda a, b: ite(lt(b, a), b, a)); real('_Z4fmaxdd', lambda a, b: ite(lt(a, b), b, a))
    def dist(c):
        a, b = c.args
        v = [[load(cx, c.st, Ptr(p.r, add(p.o, I(8 * q))), DOUBLE) for q in range(3)] for p in (a, b)]
        d = [sub(x, y) for x, y in zip(*v)]
        return bhlib.length(d)
    C['_Z8distanceDv3_dS_'] = dist
    return w
def buf(w, name, n, ty=DOUBLE, base=None):
    return Ptr(Region(name, mul(n, I(8 if ty is DOUBLE else 4)), base or default_base(name), {'elem': ty}), 0)
def count(w, name='N', lo=1):
    n = var(name, 'I'); w.fact(and_(ge(n, I(lo)), lt(n, I(LIM)))); return n
def keep(w, what, p, n, name, but=None, st=None):
    j = fresh('j', 'I'); s = (st or w.st).copy(); s.assume(and_(ge(j, I(0)), lt(j, n)))
    if but is not None: s.assume(ne(j, but))
    w.goal(what, s, eq(w.rd(p, j, s), app(name, [j], 'R')))
def run(w, S, kernel, args):
    S.target('kernel ' + kernel)
    outs = w.call(kernel, args)
    if not outs: raise Unsupported('no outcome')
    return [s for s, _ in outs]

# ------------------------------------------------------------------ elementwise kernels
def s_fill(S):
    w = cl_world(S); n = w.gsize; a = buf(w, 'a', n); v = var('v', 'R')
    for st in run(w, S, 'fill', [a, v]):
        w.goal('fill: own element = value', st, eq(w.rd(a, w.gid, st), v)); keep(w, 'fill: other elements stay', a, n, 'a', w.gid, st)
def s_inplace(S):
    for alias in (False, True):
        w = cl_world(S); n = count(w); w.fact(lt(n, I(LIM))); off = var('off', 'I'); c = var('c', 'R')
        w.fact(and_(ge(off, I(0)), le(add(off, w.gsize), n)))
        a = buf(w, 'a', n); b = a if alias else buf(w, 'b', n); i = add(w.gid, off)
        for st in run(w, S, 'fmadd_inplace', [off, a, b, c]):
            w.goal('fmadd_inplace%s: a += b*c' % (' (a is b)' if alias else ''), st, eq(w.rd(a, i, st), add(arr('a')(i), mul(arr('a' if alias else 'b')(i), c))))
            keep(w, 'fmadd_inplace: other elements stay', a, n, 'a', i, st)
            if not alias: keep(w, 'fmadd_inplace: b stays', b, n, 'b', None, st)
def s_corr(S):
    from contracts.c03 import kahan, fl
    w = cl_world(S); n = count(w); off = var('off', 'I'); c = var('c', 'R'); w.cx.fpmode = 'fl'
    w.fact(and_(ge(off, I(0)), le(add(off, w.gsize), n)))
    a, r, b = buf(w, 'a', n), buf(w, 'r', n), buf(w, 'b', n); i = add(w.gid, off)
    t, e = kahan(arr('a')(i), fl('*', arr('b')(i), c), arr('r')(i))
    for st in run(w, S, 'fmadd_inplace_corr', [off, a, r, b, c]):
        w.goal('fmadd_inplace_corr: sum, bit for bit', st, eq(w.rd(a, i, st), t)); w.goal('fmadd_inplace_corr: carried error, bit for bit', st, eq(w.rd(r, i, st), e))
        keep(w, 'fmadd_inplace_corr: other sums stay', a, n, 'a', i, st); keep(w, 'fmadd_inplace_corr: other errors stay', r, n, 'r', i, st); keep(w, 'fmadd_inplace_corr: b stays', b, n, 'b', None, st)
def s_fmadd(S):
    for alias in ('', 'b', 'c'):
        w = cl_world(S); n = count(w); d = var('d', 'R'); o = [var(x + 'off', 'I') for x in 'abc']
        for x in o: w.fact(and_(ge(x, I(0)), le(add(x, w.gsize), n)))
        nm = {x: 'a' if x == alias else x for x in 'abc'}
        for k, x in enumerate('abc'):
            if x == alias: w.fact(eq(o[0], o[k]))
        a = buf(w, 'a', n); b = a if alias == 'b' else buf(w, 'b', n); c = a if alias == 'c' else buf(w, 'c', n)
        i = add(w.gid, o[0])
        for st in run(w, S, 'fmadd', [a, b, c, d] + o):
            w.goal('fmadd%s: a = b + c*d' % (' (a is %s)' % alias if alias else ''), st, eq(w.rd(a, i, st), add(arr(nm['b'])(add(w.gid, o[1])), mul(arr(nm['c'])(add(w.gid, o[2])), d))))
            keep(w, 'fmadd: other elements stay', a, n, 'a', i, st)
            for x, p in (('b', b), ('c', c)):
                if x != alias: keep(w, 'fmadd: %s stays' % x, p, n, x, None, st)
def s_clamp(S):
    w = cl_world(S); N = count(w); w.fact(eq(w.gsize, N)); b = var('box', 'R'); w.fact(ge(b, R(0)))
    n = mul(N, I(6)); y = buf(w, 'y', n); Y = arr('y')
    for st in run(w, S, 'ClampCoord', [y, b, N]):
        for q in range(3):
            i = add(w.gid, mul(N, I(q))); v = Y(i)
            u = ite(gt(v, b), sub(v, mul(R(2), b)), v); v = ite(lt(u, neg(b)), add(u, mul(R(2), b)), u)
            w.goal('ClampCoord: coordinate %d wraps by one box length' % q, st, eq(w.rd(y, i, st), v))
        j = fresh('j', 'I'); s = st.copy(); s.assume(and_(ge(j, I(0)), lt(j, n), *[ne(j, add(w.gid, mul(N, I(q)))) for q in range(3)]))
        w.goal('ClampCoord: everything else stays', s, eq(w.rd(y, j, s), Y(j)))
def s_maxabs(S):
    w = cl_world(S); n = count(w); lo, hi, ro = var('lo', 'I'), var('hi', 'I'), var('ro', 'I'); m = count(w, 'm')
    w.fact(and_(ge(lo, I(0)), le(lo, hi), le(hi, n), ge(ro, I(0)), le(add(ro, w.gsize), m), le(mul(w.gsize, I(BLOCK)), I(LIM * 4))))
    a, r = buf(w, 'a', n), buf(w, 'r', m); w.cx.unroll = BLOCK
    first = add(mul(w.gid, I(BLOCK)), lo); i = add(w.gid, ro); A = arr('a')
    for st in run(w, S, 'fmaxabs', [a, lo, hi, r, ro]):
        k = fresh('k', 'I'); s = st.copy(); s.assume(and_(ge(k, first), lt(k, add(first, I(BLOCK))), lt(k, hi)))
        v = w.rd(r, i, s)
        w.goal('fmaxabs: at least every element of the block', s, le(fabs(A(k)), v))
        s = st.copy(); s.assume(lt(first, hi))
        U = var('U', 'R')      # any bound of the elements of the block
        for k in range(BLOCK): s.assume(implies(lt(add(first, I(k)), hi), le(fabs(A(add(first, I(k)))), U)))
        w.goal('fmaxabs: not above a bound of the block', s, le(w.rd(r, i, s), U))
        s = st.copy(); s.assume(ge(first, hi)); w.goal('fmaxabs: nothing to do, nothing written', s, eq(w.rd(r, i, s), app('r', [i], 'R')))
        keep(w, 'fmaxabs: other results stay', r, m, 'r', i, st); keep(w, 'fmaxabs: input stays', a, n, 'a', None, st)

# ------------------------------------------------------------------ tree updates
TF = ['cmx', 'cmy', 'cmz', 'mnx', 'mny', 'mnz', 'mxx', 'mxy', 'mxz']
def body_base(N, name='body'):
    def base(cx, st, o, ty, size):
        j = exact_div(o, 4); t = app(name, [j], 'I')
        st.fact(implies(and_(ge(j, N), lt(j, mul(N, I(2)))), and_(ge(t, I(0)), lt(t, N))))
        return t
    return base
def s_leaf(S):
    w = cl_world(S); N = count(w); w.fact(eq(w.gsize, N)); n = mul(N, I(2))
    y = buf(w, 'y', mul(N, I(6))); T = [buf(w, x, n) for x in TF]; b = buf(w, 'body', n, I32, body_base(N))
    i = add(w.gid, N); bn = app('body', [i], 'I')
    for st in run(w, S, 'UpdateLeafBH', [N, y] + T + [b]):
        for k, x in enumerate(TF):
            w.goal('UpdateLeafBH: %s of the leaf is the position of its body' % x, st, eq(w.rd(T[k], i, st), app('y', [add(mul(N, I(k % 3)), bn)], 'R')))
            keep(w, 'UpdateLeafBH: %s of other nodes stays' % x, T[k], n, x, i, st)
        keep(w, 'UpdateLeafBH: y stays', y, mul(N, I(6)), 'y', None, st)
def s_node(S):
    w = cl_world(S); N = count(w, lo=2); n = mul(N, I(2)); lo, hi = var('lo', 'I'), var('hi', 'I'); ratio = var('ratio', 'R')
    w.fact(and_(ge(lo, I(1)), le(lo, hi), le(hi, N), le(hi, mul(lo, I(2)))))
    names = TF + ['mass', 'crit']; T = [buf(w, x, n) for x in names]
    i = add(w.gid, lo); l, r = mul(i, I(2)), add(mul(i, I(2)), I(1)); g = lambda x, k: app(x, [k], 'R')
    rec = lambda k: dict(mass=g('mass', k), center=[g('cm' + x, k) for x in 'xyz'], min=[g('mn' + x, k) for x in 'xyz'], max=[g('mx' + x, k) for x in 'xyz'])
    sp = bhlib.node_spec(rec(l), rec(r), ratio)
    want = sp['center'] + sp['min'] + sp['max'] + [sp['mass'], sp['radius']]
    for st in run(w, S, 'UpdateNodeBH', [lo, hi] + T + [ratio]):
        for k, x in enumerate(names):
            s = st.copy(); s.assume(lt(i, hi))
            w.goal('UpdateNodeBH: %s of a node of the level from its children' % x, s, eq(w.rd(T[k], i, s), want[k]))
            keep(w, 'UpdateNodeBH: %s of other nodes stays' % x, T[k], n, x, i, st)
            s = st.copy(); s.assume(and_(ge(i, hi), lt(i, n))); w.goal('UpdateNodeBH: %s beyond the level stays' % x, s, eq(w.rd(T[k], i, s), g(x, i)))
    # what the node reads is not written by another work-item of the same launch: children of the level lie outside it
    s = w.st.copy(); j = fresh('j', 'I'); s.assume(and_(ge(j, lo), lt(j, hi), ge(i, lo), lt(i, hi)))
    w.goal('UpdateNodeBH: the children of a level are not in the level', s, and_(ne(l, j), ne(r, j)))

# ------------------------------------------------------------------ direct sum with local memory
def s_block(S):
    w = cl_world(S); cx = w.cx
    nb = var('nb', 'I'); w.fact(and_(ge(nb, I(1)), lt(nb, I(LIM // BLOCK)))); P = mul(nb, I(BLOCK))
    N = count(w); o1, o2, yo, fo = var('o1', 'I'), var('o2', 'I'), var('yo', 'I'), var('fo', 'I'); L = I(LIM)
    for x in (o1, o2): w.fact(ge(x, I(0)))
    for x in (yo, fo): w.fact(and_(ge(x, I(0)), lt(x, L)))
    w.fact(and_(le(add(o1, w.gsize), N), le(add(o2, P), N)))
    mass = buf(w, 'mass', N); n6 = mul(N, I(6)); y = buf(w, 'y', add(n6, yo)); f = buf(w, 'f', add(n6, fo))
    i = add(w.gid, o1); Y = lambda k: app('y', [add(yo, k)], 'R'); M = arr('mass')
    def barrier(c):
        st = c.st; ph = st.ghost.get('phase', 0)
        for rid, lg in list(st.mem.items()):
            r = w.local.get(rid)
            if r is None: continue
            ents = [e for e in lg if e[0] != 'X' or not getattr(e[1], 'synced', False)]
            if not ents: continue
            own = mul(w.lid, I(8)); vals = [store_at(cx, st, e) for e in ents]
            for o, v in vals: cx.oblige('post', 'local memory: a work-item writes its own element only', st, eq(o, own))
            v = load(cx, st, Ptr(r, own), DOUBLE)
            def rd(cx_, s_, o, ty, size, v=v): return subst(v, {as_atom(w.lid): exact_div(o, 8)})
            rd.synced = True
            st.mem[rid] = (('X', rd),)
        st.ghost['phase'] = ph + 1
        return None
    cx.contracts['_Z7barrierj'] = barrier
    term = lambda q, j: acc(Y, M, N, q, i, add(o2, j))
    done = []; order = []
    def stale(*a): return fresh('stale', 'R')
    stale.synced = True
    def outer(ex, fn, depth, header, prev, st, env):
        blocks = fn.loops[header]; phis = [x for x in fn.blocks[header].insts if x.op == 'phi']
        ints = [p.res for p in phis if p.ty.k == 'int']; reals = [p.res for p in phis if p.ty.k != 'int']
        if not any(x.op == 'call' and x.a[0] == ('glob', '_Z7barrierj') for b in blocks for x in fn.blocks[b].insts): return None
        if len(ints) != 1 or len(reals) != 3: raise Unsupported('shape of the block loop')
        done.append(1); p = ints[0]
        if order: reals.reverse()
        SUM = lambda q, k: app('BS%d' % q, [k], 'R')      # sum of the first k terms
        cx.oblige('inv', 'blocks: start at 0', st, eq(env[p], I(0)))
        for q in range(3): cx.oblige('inv', 'blocks: nothing summed (%d)' % q, st, eq(env[reals[q]], R(0)))
        out = []
        for kind in ('body', 'end'):
            s = st.copy(); e = dict(env)
            for rid in w.local: s.mem[rid] = (('X', stale),)
            k = fresh('k', 'I') if kind == 'body' else nb
            if kind == 'body': s.assume(and_(ge(k, I(0)), lt(k, nb)))
            e[p] = mul(k, I(BLOCK))
            for q in range(3): e[reals[q]] = SUM(q, mul(k, I(BLOCK)))
            ph = s.ghost.get('phase', 0)
            for dest, pr, s2, e2 in loops.fork(ex, fn, depth, header, blocks, s, e):
                if dest != header:
                    if kind == 'body': cx.oblige('inv', 'blocks: does not end early', s2, FALSE); continue
                    out.append((dest, pr, s2, e2)); continue
                if kind == 'end': cx.oblige('inv', 'blocks: ends after the last block', s2, FALSE); continue
                e3 = ex.phis(fn, header, pr, e2, s2)
                cx.oblige('inv', 'blocks: next block', s2, eq(e3[p], mul(add(k, I(1)), I(BLOCK))))
                l = fresh('l', 'I')
                if cx.decide(s2, eq(e3[reals[0]], add(SUM(0, mul(k, I(BLOCK))), sum_(l, I(0), I(BLOCK), term(2, add(mul(k, I(BLOCK)), l)))))) is True and not order:
                    order.append(1); done.clear(); return outer(ex, fn, depth, header, prev, st, env)
                for q in range(3):
                    cx.oblige('inv', 'blocks: one more block of terms (%d)' % q, s2, eq(e3[reals[q]], add(SUM(q, mul(k, I(BLOCK))), sum_(l, I(0), I(BLOCK), term(q, add(mul(k, I(BLOCK)), l))))))
                cx.oblige('inv', 'blocks: local memory is written, synchronised, read, synchronised', s2, TRUE if s2.ghost.get('phase', 0) == ph + 2 else FALSE)
        return out
    cx.loop_inv['ComputeBlockLocal'] = outer
    w.local = {}
    for g in [g for g in w.m._gtext if g.startswith('ComputeBlockLocal.')]:
        r = w.ex.glob(g, w.st).r; w.local[r.id] = r
    for st in run(w, S, 'ComputeBlockLocal', [o1, o2, mass, y, f, yo, fo, P, N]):
        for q in range(3):
            w.goal('ComputeBlockLocal: d(r%s)/dt = v' % 'xyz'[q], st, eq(w.rd(f, add(fo, add(mul(N, I(q)), i)), st), Y(add(mul(N, I(q + 3)), i))))
            w.cx.oblige('inv', 'ComputeBlockLocal: d(v%s)/dt = all terms' % 'xyz'[q], st, eq(w.rd(f, add(fo, add(mul(N, I(q + 3)), i)), st), app('BS%d' % q, [P], 'R')))
        j = fresh('j', 'I'); s = st.copy(); s.assume(and_(ge(j, I(0)), lt(j, add(n6, fo)), *[ne(j, add(fo, add(mul(N, I(q)), i))) for q in range(6)]))
        w.goal('ComputeBlockLocal: everything else stays', s, eq(w.rd(f, j, s), app('f', [j], 'R')))
        keep(w, 'ComputeBlockLocal: y stays', y, add(n6, yo), 'y', None, st); keep(w, 'ComputeBlockLocal: masses stay', mass, N, 'mass', None, st)
    if not done: raise Unsupported('block loop not found')
def acc(Y, M, N, c, i, j): return acc_term(Y, M, N, c, i, j)
def store_at(cx, st, e):
    if e[0] == 'S': return e[1], e[3]
    raise Unsupported('local store of kind ' + e[0])

# ------------------------------------------------------------------ traversals
def ND(c): return app('ND', [c], 'I')
def nd_laws(st, c):
    """definition of the preorder successor of a skipped subtree (C10): ND(2k) = 2k+1, ND(2k+1) = ND(k), ND(0) = 1"""
    p = fresh('half', 'I'); b = fresh('bit', 'I')
    st.fact(and_(eq(c, add(mul(p, I(2)), b)), or_(eq(b, I(0)), eq(b, I(1))), ge(p, I(0))))
    st.fact(implies(eq(b, I(0)), eq(ND(c), add(c, I(1))))); st.fact(implies(eq(b, I(1)), eq(ND(c), ND(p)))); st.fact(eq(ND(I(0)), I(1))); st.fact(eq(ND(I(1)), I(1)))
    return p, b
def s_next_down(S):
    w = cl_world(S); cx = w.cx; N = count(w); c0 = var('c', 'I'); w.fact(and_(ge(c0, I(1)), lt(c0, mul(N, I(2)))))
    S.target('next_down (OpenCL 1.x branch)', 'next_up', 'left_idx', 'rght_idx', 'parent_idx', 'is_right', 'left2right')
    used = []
    def inv(ex, f, depth, header, prev, st, env):
        blocks = f.loops[header]; phis = [x for x in f.blocks[header].insts if x.op == 'phi']
        own = [x.res for x in phis if env[x.res] is c0 or env[x.res] == c0]
        if len(own) != 1: raise Unsupported('shape of the climb')
        p = own[0]; used.append(1)
        I_ = lambda v: [('successor', eq(ND(v), ND(c0))), ('range', and_(ge(v, I(0)), le(v, c0), lt(v, mul(N, I(2)))))]
        for n, g in I_(env[p]): cx.oblige('inv', 'climb: %s at the start' % n, st, g)
        v = fresh('v', 'I'); s = st.copy(); e = dict(env)
        for x in phis: e[x.res] = fresh('other', 'I')
        e[p] = v
        for n, g in I_(v): s.assume(g)
        hp, b = nd_laws(s, v); out = []
        for bit in (0, 1):
            s1 = s.copy(); s1.assume(eq(b, I(bit)))
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s1, dict(e)):
                if dest != header: out.append((dest, pr, s2, e2)); continue
                e3 = ex.phis(f, header, pr, e2, s2)
                for n, g in I_(e3[p]): cx.oblige('inv', 'climb: %s' % n, s2, g)
                cx.oblige('inv', 'climb: ends', s2, lt(e3[p], v))
        return out
    cx.loop_inv['next_down'] = inv
    for st, r in w.call('next_down', [c0]):
        w.cx.oblige('inv', 'next_down: the successor of a skipped subtree', st, eq(r, ND(c0)))
        w.cx.oblige('inv', 'next_down: stays in the heap', st, and_(ge(r, I(1)), lt(r, mul(N, I(2)))))
    if not used: S.note('next_down without a loop')
    cx.contracts['next_down'] = lambda c: ND(c.args[0])
    for st, r in w.call('next_up', [c0, mul(N, I(2))]):
        s = st.copy(); s.assume(lt(c0, N)); w.goal('next_up: an inner node continues with its left child', s, eq(r, mul(c0, I(2))))
        s = st.copy(); s.assume(ge(c0, N)); w.goal('next_up: a leaf continues as if skipped', s, eq(r, ND(c0)))

def s_trav(kernel, heap, walk):
    def sec(S):
        w = cl_world(S); cx = w.cx; N = count(w); n2 = mul(N, I(2)); o1 = var('o1', 'I'); w.fact(and_(ge(o1, I(0)), le(add(o1, w.gsize), N)))
        n6 = mul(N, I(6)); y, f = buf(w, 'y', n6), buf(w, 'f', n6)
        T = [buf(w, x, n2) for x in ('cmx', 'cmy', 'cmz', 'mass', 'crit')]; b = buf(w, 'body', n2, I32, body_base(N))
        g = lambda x, k: app(x, [k], 'R'); Y = arr('y')
        own = add(w.gid, o1); leaf = add(own, N)
        i = app('body', [leaf], 'I') if heap else own
        v1 = [g('cm' + x, leaf) for x in 'xyz'] if heap else [Y(add(mul(N, I(q)), own)) for q in range(3)]
        def accept(c):
            d = [sub(v1[k], g('cm' + 'xyz'[k], c)) for k in range(3)]
            return lt(g('crit', c), add(add(mul(d[0], d[0]), mul(d[1], d[1])), mul(d[2], d[2])))
        def dist2(c):
            d = [sub(v1[k], g('cm' + 'xyz'[k], c)) for k in range(3)]
            return d, add(add(mul(d[0], d[0]), mul(d[1], d[1])), mul(d[2], d[2]))
        def pull(c, q, near):
            d, r2 = dist2(c)
            if near: r2 = EPS
            return div(mul(neg(d[q]), g('mass', c)), mul(r2, sqrt(r2)))
        near = lambda c: lt(dist2(c)[1], EPS)
        inner = lambda c: lt(c, N)
        bound = lambda c: and_(ge(c, I(1)), lt(c, n2))
        def ndc(c):
            x = c.args[0]; cx.oblige('contract', 'next_down is asked for a node of the heap', c.st, bound(x)); t = ND(x); c.st.fact(bound(t)); return t
        cx.contracts['next_down'] = ndc
        T_ = KTrav(w, S, inner, accept, bound, pull, near)
        cx.loop_inv[kernel] = T_.walk if walk else T_.stack
        sat_check(w, S, kernel)
        for st in run(w, S, kernel, [o1, N, n2, y, f] + T + ([b] if heap else [])):
            for q in range(3):
                w.goal('%s: d(r%s)/dt = v' % (kernel, 'xyz'[q]), st, eq(w.rd(f, add(mul(N, I(q)), i), st), Y(add(mul(N, I(q + 3)), i))))
                w.cx.oblige('inv', '%s: d(v%s)/dt = sum of the accepted nodes' % (kernel, 'xyz'[q]), st, eq(w.rd(f, add(mul(N, I(q + 3)), i), st), F(I(1), q)))
            j = fresh('j', 'I'); s = st.copy(); s.assume(and_(ge(j, I(0)), lt(j, n6), *[ne(j, add(mul(N, I(q)), i)) for q in range(6)]))
            w.goal('%s: everything else stays' % kernel, s, eq(w.rd(f, j, s), g('f', j)))
            keep(w, '%s: y stays' % kernel, y, n6, 'y', None, st)
            for k, x in enumerate(('cmx', 'cmy', 'cmz', 'mass', 'crit')): keep(w, '%s: %s stays' % (kernel, x), T[k], n2, x, None, st)
        if not T_.used: raise Unsupported('no traversal loop found')
    return sec

class KTrav:
    """traversal loops whose sums live in registers"""
    def __init__(self, w, S, inner, accept, bound, pull, near):
        self.w = w; self.near = near; self.inner = inner; self.accept = accept; self.bound = bound; self.pull = pull; self.used = 0
    KINDS = ('near', 'far', 'inner', 'leaf')
    def case(self, s, c, kind):
        """assumes the case and returns the definition of F(c): an accepted node counts as one body, others as the sum of their children"""
        if kind in ('near', 'far'):
            s.assume(self.accept(c)); s.assume(self.near(c) if kind == 'near' else not_(self.near(c)))
            return lambda q: self.pull(c, q, kind == 'near')
        s.assume(not_(self.accept(c))); s.assume(self.inner(c) if kind == 'inner' else not_(self.inner(c)))
        if kind == 'leaf': return lambda q: R(0)
        return lambda q: add(F(mul(c, I(2)), q), F(add(mul(c, I(2)), I(1)), q))
    def shape(self, f, header, env):
        phis = [x for x in f.blocks[header].insts if x.op == 'phi']
        ints = [p for p in phis if p.ty.k == 'int']; reals = [p for p in phis if p.ty.k != 'int']
        if len(ints) != 1 or len(reals) != 3: raise Unsupported('shape of the traversal loop')
        return ints[0], reals
    def order(self, ex, f, depth, header, st, env, p, reals, c, setup):
        """which register sums which component: one accepted step, silently"""
        cx = ex.cx; cx.mute += 1
        try:
            s = st.copy(); e = dict(env); setup(s, e)
            s.assume(self.accept(c)); s.assume(self.bound(c)); s.assume(not_(self.near(c)))
            base = [fresh('t', 'R') for _ in range(3)]
            for r, v in zip(reals, base): e[r.res] = v
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, f.loops[header], s, e):
                if dest != header: continue
                e3 = ex.phis(f, header, pr, e2, s2); out = [None] * 3
                for r, v in zip(reals, base):
                    for q in range(3):
                        if out[q] is None and cx.decide(s2, eq(sub(e3[r.res], v), self.pull(c, q, False))) is True: out[q] = r.res; break
                if None not in out: return out
        finally: cx.mute -= 1
        return [r.res for r in reals]
    def leave(self, f, header, st, env, regs, out):
        if not out: raise Unsupported('the walk never ends')
        dest, pr, s2, e2 = out[0]
        inside = {i.res for b in f.loops[header] for i in f.blocks[b].insts if i.res}
        e = {k: v for k, v in e2.items() if k not in inside}
        for q, r in enumerate(regs):
            e[r] = F(I(1), q)
            ph = next(i for i in f.blocks[header].insts if i.op == 'phi' and i.res == r)
            for v, b in incoming(ph):
                if b in f.loops[header] and v[0] == 'reg': e[v[1]] = F(I(1), q)
        return [(dest, pr, st.copy(), e)]
    def value(self, f, header, r, e2, ex, dest, pr, s2):
        """the value a sum has on leaving: what the header would receive when the exit is at the latch, the header's own otherwise"""
        ph = next(i for i in f.blocks[header].insts if i.op == 'phi' and i.res == r)
        for v, b in incoming(ph):
            if b == pr: return ex.val(ph.ty, v, e2, s2)
        return e2[r]
    def walk(self, ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]; ip, reals = self.shape(f, header, env); p = ip.res; self.used += 1
        rem = lambda c, q: app('Rem%d' % q, [c], 'R'); aft = lambda c, q: app('After%d' % q, [c], 'R')
        c0 = fresh('c', 'I')
        def setup(s, e): e[p] = c0; s.assume(ne(ND(c0), I(1)))
        regs = self.order(ex, f, depth, header, st, env, p, reals, c0, setup)
        s0 = st.copy(); root = I(1)
        cx.oblige('inv', 'walk: starts at the root', s0, eq(env[p], root))
        for q in range(3): cx.oblige('inv', 'walk: nothing summed before the root (%d)' % q, s0, eq(env[regs[q]], R(0)))
        out = []
        for tag in self.KINDS:
            c = fresh('c', 'I'); s = st.copy(); e = dict(env); e[p] = c
            s.assume(self.bound(c)); l, r = mul(c, I(2)), add(mul(c, I(2)), I(1)); Fc = self.case(s, c, tag)
            nd = ND(c)
            for q in range(3):
                e[regs[q]] = sub(sub(F(root, q), Fc(q)), aft(c, q))      # F(root) - Rem(c)
                s.fact(eq(aft(l, q), add(F(r, q), aft(c, q)))); s.fact(eq(aft(c, q), ite(eq(nd, root), R(0), rem(nd, q))))
                s.fact(eq(rem(l, q), add(F(l, q), aft(l, q))))
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
                if dest == header:
                    e3 = ex.phis(f, header, pr, e2, s2)
                    cx.oblige('inv', 'walk, %s: stays inside the heap' % tag, s2, self.bound(e3[p]))
                    for q in range(3): cx.oblige('inv', 'walk, %s: what is summed and what is left make up the whole (%d)' % (tag, q), s2, eq(e3[regs[q]], sub(F(root, q), rem(e3[p], q))))
                else:
                    for q in range(3): cx.oblige('inv', 'walk, %s: at the end everything is summed (%d)' % (tag, q), s2, eq(self.value(f, header, regs[q], e2, ex, dest, pr, s2), F(root, q)))
                    out.append((dest, pr, s2, e2))
        return self.leave(f, header, st, env, regs, out)
    def stack(self, ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]; ip, reals = self.shape(f, header, env); p = ip.res; self.used += 1
        regions = {v.r.id: v.r for v in env.values() if isinstance(v, Ptr) and cval(v.r.size) == 256} if True else {}
        if len(regions) != 1: raise Unsupported('the stack is not identified')
        stk = next(iter(regions.values())); root = I(1)
        A = lambda j: app('A', [j], 'I'); lev = lambda c: app('lev', [c], 'I'); W = lambda n, q: app('W%d' % q, [n], 'R')
        def rd(cx_, s_, o, ty, size): return A(exact_div(o, 4))
        c0 = A(I(0))
        def setup(s, e): e[p] = I(1); s.mem[stk.id] = (('X', rd),)
        regs = self.order(ex, f, depth, header, st, env, p, reals, c0, setup)
        cx.oblige('inv', 'stack: starts with one entry', st, eq(env[p], I(1)))
        cx.oblige('inv', 'stack: starts with the root', st, eq(load(cx, st, Ptr(stk, I(0)), I32), root))
        for q in range(3): cx.oblige('inv', 'stack: nothing summed at the start (%d)' % q, st, eq(env[regs[q]], R(0)))
        out = []
        for kind in ('end',) + self.KINDS:
            s = st.copy(); e = dict(env); sp = fresh('sp', 'I') if kind != 'end' else I(0); e[p] = sp
            s.mem[stk.id] = (('X', rd),)
            if kind == 'end':
                for q in range(3): e[regs[q]] = F(root, q)
            else:
                s.assume(ge(sp, I(1))); c = A(sub(sp, I(1))); s.assume(self.bound(c))
                Fc = self.case(s, c, kind)
                s.assume(ge(lev(c), sub(sp, I(1)))); s.fact(implies(self.inner(c), lt(lev(c), I(61)))); s.fact(lt(lev(c), I(62)))
                l, r = mul(c, I(2)), add(mul(c, I(2)), I(1))
                s.fact(eq(lev(l), add(lev(c), I(1)))); s.fact(eq(lev(r), add(lev(c), I(1))))
                for q in range(3):
                    e[regs[q]] = sub(sub(F(root, q), W(sub(sp, I(1)), q)), Fc(q))
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
                if dest != header:
                    if kind != 'end': cx.oblige('inv', 'stack, %s: does not end early' % kind, s2, FALSE); continue
                    for q in range(3): cx.oblige('inv', 'stack: at the end everything is summed (%d)' % q, s2, eq(self.value(f, header, regs[q], e2, ex, dest, pr, s2), F(root, q)))
                    out.append((dest, pr, s2, e2)); continue
                if kind == 'end': cx.oblige('inv', 'stack: ends when empty', s2, FALSE); continue
                e3 = ex.phis(f, header, pr, e2, s2); dv = cval(sub(e3[p], sp))
                if dv is None or not -1 <= dv <= 8: raise Unsupported('stack pointer moves by %s' % sub(e3[p], sp))
                base = sub(sp, I(1)); ents = [load(cx, s2, Ptr(stk, mul(add(base, I(k)), I(4))), I32) for k in range(int(dv) + 1)]
                j = fresh('j', 'I'); sj = s2.copy(); sj.assume(and_(ge(j, I(0)), lt(j, base)))
                cx.oblige('inv', 'stack, %s: lower entries stay' % kind, sj, eq(load(cx, sj, Ptr(stk, mul(j, I(4))), I32), A(j)))
                for q in range(3):
                    tot = add(e3[regs[q]], W(base, q))
                    for x in ents: tot = add(tot, F(x, q))
                    cx.oblige('inv', 'stack, %s: what is summed and what is on the stack make up the whole (%d)' % (kind, q), s2, eq(tot, F(root, q)))
                for k, x in enumerate(ents):
                    cx.oblige('inv', 'stack, %s: entry %d lies deep enough for its place' % (kind, k), s2, ge(lev(x), add(base, I(k))))
                    cx.oblige('inv', 'stack, %s: entry %d is a node of the heap' % (kind, k), s2, self.bound(x))
        return self.leave(f, header, st, env, regs, out)
def incoming(ph): return ph.a

def sections(tier):
    return [('fill', s_fill), ('fmadd_inplace', s_inplace), ('fmadd_inplace_corr', s_corr), ('fmadd', s_fmadd), ('fmaxabs', s_maxabs), ('ClampCoord', s_clamp),
            ('UpdateLeafBH', s_leaf), ('UpdateNodeBH', s_node), ('ComputeBlockLocal', s_block), ('next_down and next_up', s_next_down)] + \
           [(k, s_trav(k, 'Heap' in k, k.endswith('SL'))) for k in ('ComputeTreeBH', 'ComputeTreeBHSL', 'ComputeHeapBH', 'ComputeHeapBHSL')]
