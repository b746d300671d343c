"""C01: the direct-summation engines compute the softened Newtonian field."""
from contracts.englib import *

HARNESS = 'c01.cpp'
HARNESS_TUS = None
BOUNDED = ['nbody_engine_block for body counts that are not multiples of the block size is outside the precondition (containers are filled in whole blocks)',
           'agreement of several refresh/skip steps of the distance-limited engine over a run: concrete runs']

def field_goals(w, S, cls, N, F, Y, M, st, i):
    j = fresh('j', 'I')
    for c in range(3):
        w.goal('%s: d(r%s)/dt = v' % (cls, 'xyz'[c]), st, eq(w.rd(F, add(mul(I(c), N), i), st), Y(add(mul(I(c + 3), N), i))))
        w.goal('%s: d(v%s)/dt = -sum m_j dr/(max(r2,eps) sqrt)' % (cls, 'xyz'[c]), st,
               eq(w.rd(F, add(mul(I(c + 3), N), i), st), sum_(j, I(0), N, acc_term(Y, M, N, c, i, j))))

def engine_section(cls, mult=1):
    def sec(S):
        w = S.world()
        N = w.N(mult=mult)
        e, d, A = w.engine(cls, N)
        nb = mul(N, I(48))
        y = w.buffer(e, cls, nb, 'y'); f = w.buffer(e, cls, nb, 'f'); o = w.buffer(e, cls, nb, 'o')
        i0 = fresh('mi', 'I')
        # masses are positive (division by the target's own mass)
        w.cx.divcheck = False
        sat_check(w, S, cls)
        tt = w.dref(var('t', 'R'))
        w.vcall(e, cls, 'fcompute', [tt, y, f])
        S.target('%s::fcompute' % cls, 'nbody_data::force')
        i, st = with_index(w, N)
        Y = arr('y'); M = arr('D_mass')
        st.assume(ne(M(i), R(0)))
        field_goals(w, S, cls, N, w.buf_data(f), Y, M, st, i)
        n6 = mul(N, I(6))
        unchanged(w, S, 'y', w.buf_data(y), Y, n6, w.st)
        unchanged(w, S, 'unrelated buffer', w.buf_data(o), arr('o'), n6, w.st)
        unchanged(w, S, 'masses of the container', Ptr(A['mass'], 0), arr('D_mass'), N, w.st)
        S.assume('body masses are non-zero (the code divides the force by the body\'s own mass)')
    return sec

def force_section(S):
    """nbody_data::force obeys the law and is antisymmetric"""
    w = S.world()
    N = w.N(); d, A = w.data(N)
    def vtx(n):
        r = Region(n, I(24), default_base(n), {'elem': DOUBLE}); return Ptr(r, 0)
    def run(a, b, m1, m2):
        out = Region('F', I(24), None, {'elem': DOUBLE})
        mg = w.cx.find('nbody_data::force')
        if not mg: raise Unsupported('nbody_data::force not found')
        f = w.m.funcs[mg[0]]
        args = [d, a, b, m1, m2]
        sret = len(f.params) == 6
        if sret: args = [Ptr(out, 0)] + args
        r = w.call1(mg[0], args)
        if sret: return [w.rd(Ptr(out, 0), I(q)) for q in range(3)]
        raise Unsupported('force returns by value')
    u, v = vtx('u'), vtx('v'); m1 = var('m1', 'R'); m2 = var('m2', 'R')
    F = run(u, v, m1, m2); G = run(v, u, m2, m1)
    S.target('nbody_data::force')
    U = lambda q: app('u', [I(q)], 'R'); V = lambda q: app('v', [I(q)], 'R')
    n2 = R(0)
    for q in range(3): n2 = add(n2, mul(sub(U(q), V(q)), sub(U(q), V(q))))
    r2 = ite(lt(n2, EPS), EPS, n2)
    for q in range(3):
        w.goal('force component %d' % q, w.st, eq(F[q], div(mul(mul(neg(sub(U(q), V(q))), m1), m2), mul(r2, sqrt(r2)))))
        w.goal('action equals reaction, component %d' % q, w.st, eq(F[q], neg(G[q])))

# ------------------------------------------------------------------ distance-limited engine
def adj_contracts(w, N, ghost):
    """contracts assumed for the adjacency lists: each list is a sequence; ghost[b] accumulates g(b, value) over the values appended to list b"""
    cx = w.cx
    def outer_resize(c):
        n = c.args[1]
        r = Region('adjacency', mul(I(n), I(24)), None, {'adj': True, 'heap': True})
        models.vec_set(cx, c.st, c.args[0], Ptr(r, 0), Ptr(r, mul(I(n), I(24))))
        return None
    def idx(p):
        if not (isinstance(p, Ptr) and p.r.meta.get('adj')): raise Unsupported('index list outside the adjacency container')
        q = exact_div(p.o, 24)
        if q is None: raise Unsupported('adjacency element')
        return q
    def gcell(k): return Ptr(ghost, mul(k, I(8)))
    def inner_resize(c):
        k = idx(c.args[0])
        cx.oblige('post', 'adjacency list is emptied, not grown, at ' + c.where.split(':')[0], c.st, eq(I(c.args[1]), I(0)))
        store(cx, c.st, gcell(k), R(0), DOUBLE, 'ghost'); return None
    def inner_clear(c):
        store(cx, c.st, gcell(idx(c.args[0])), R(0), DOUBLE, 'ghost'); return None
    def push(c):
        k = idx(c.args[0])
        v = load(cx, c.st, c.args[1], Ty('int', 64))
        cx.oblige('post', 'adjacency index in range at ' + c.where.split(':')[0], c.st, and_(ge(v, I(0)), lt(v, N)))
        g = load(cx, c.st, gcell(k), DOUBLE)
        store(cx, c.st, gcell(k), add(g, app('g', [k, v], 'R')), DOUBLE, 'ghost'); return None
    U = 'std::vector<unsigned long, std::allocator<unsigned long> >'
    cx.contracts['std::vector<%s, std::allocator<%s > >::resize' % (U, U)] = outer_resize
    for nm in list(w.m.funcs) + list(w.m.decls):
        dm = cx.dem(nm)
        if dm.startswith('std::vector<' + U) and '>::resize(' in dm: cx.contracts[nm] = outer_resize
        elif dm.startswith(U + '::resize('): cx.contracts[nm] = inner_resize
        elif dm.startswith(U + '::clear('): cx.contracts[nm] = inner_clear
        elif (dm.startswith(U + '::push_back(') or dm.startswith('void ' + U + '::emplace_back')): cx.contracts[nm] = push
    cx.assumptions.add('std::vector<std::vector<size_t>> of the distance-limited engine: assumed container contracts (resize, clear, push_back)')

def ah_full(S, first=False):
    cls = 'nbody_engine_ah'
    w = S.world()
    N = w.N()
    rate = var('rate', 'I'); md = var('maxd', 'R'); mf = var('minf', 'R')
    w.fact(and_(ge(rate, I(1)), lt(rate, I(1 << 62))))
    e, d, A = w.engine(cls, N, [rate, md, mf])
    if not first: w.fact(eq(imod(var('D_step', 'I'), rate), I(0)))
    ghost = Region('ghost_adj', mul(N, I(8)), default_base('ghost0'), {'elem': DOUBLE})
    adj_contracts(w, N, ghost)
    nb = mul(N, I(48))
    y = w.buffer(e, cls, nb, 'y'); f = w.buffer(e, cls, nb, 'f'); o = w.buffer(e, cls, nb, 'o')
    sat_check(w, S, cls)
    w.vcall(e, cls, 'fcompute', [w.dref(var('t', 'R')), y, f])
    S.target('nbody_engine_ah::fcompute', 'nbody_engine_ah::fcompute_full')
    i, st = with_index(w, N)
    Y = arr('y'); M = arr('D_mass'); st.assume(ne(M(i), R(0)))
    field_goals(w, S, cls, N, w.buf_data(f), Y, M, st, i)
    unchanged(w, S, 'y', w.buf_data(y), Y, mul(N, I(6)), w.st)
    # the lists hold exactly the near bodies, each once
    j = fresh('j', 'I')
    n2 = R(0)
    for q in range(3):
        dq = diff(Y, N, q, i, j); n2 = add(n2, mul(dq, dq))
    r2 = r2soft(Y, N, i, j)
    fn = R(0)
    for q in range(3):
        fq = div(mul(mul(neg(diff(Y, N, q, i, j)), M(i)), M(j)), mul(r2, sqrt(r2))); fn = add(fn, mul(fq, fq))
    near = or_(lt(n2, mul(md, md)), gt(fn, mul(mf, mf)))
    w.goal('adjacency list of body i = the near bodies, each exactly once', st,
           eq(w.rd(Ptr(ghost, 0), i, st), sum_(j, I(0), N, ite(and_(ne(i, j), near), app('g', [i, j], 'R'), R(0)))))

    # what is not in a list is kept, summed, for the steps in between
    u = univ_vec(w, e, N)
    for c in range(3):
        fq = div(mul(mul(neg(diff(Y, N, c, i, j)), M(i)), M(j)), mul(r2, sqrt(r2)))
        w.goal('stored far-field force of body i, component %d' % c, st,
               eq(w.rd(u, add(mul(I(3), i), I(c)), st), sum_(j, I(0), N, ite(and_(ne(i, j), not_(near)), fq, R(0)))))

def univ_vec(w, e, N):
    """the engine's vector of stored far-field forces (the only other container it owns)"""
    out = []
    for ent in w.st.mem.get(e.r.id, ()):
        if ent[0] != 'C': continue
        for o, (v, sz) in sorted(ent[1].items()):
            if isinstance(v, Ptr) and v.r.meta.get('vec') and cval(v.o) == 0 and v.r not in out: out.append(v.r)
    if len(out) != 1: raise Unsupported('the stored far-field container is not identified')
    return Ptr(out[0], 0)

def ah_sparse(S):
    cls = 'nbody_engine_ah'
    w = S.world()
    N = w.N()
    rate = var('rate', 'I'); md = var('maxd', 'R'); mf = var('minf', 'R')
    w.fact(and_(ge(rate, I(1)), lt(rate, I(1 << 62))))
    e, d, A = w.engine(cls, N, [rate, md, mf])
    # containers as a refresh step leaves them: lists of indices below N, arbitrary stored forces
    ghost = Region('ghost_adj', mul(N, I(8)), default_base('ghost0'), {'elem': DOUBLE})
    adj_contracts(w, N, ghost)
    w.cx.mute += 1
    step0 = w.st.mem[d.r.id]
    L = w.data_layout()
    store(w.cx, w.st, Ptr(d.r, L['step']), I(0), Ty('int', 64))
    nb = mul(N, I(48))
    y = w.buffer(e, cls, nb, 'y'); f = w.buffer(e, cls, nb, 'f')
    w.vcall(e, cls, 'fcompute', [w.dref(var('t', 'R')), y, f])
    w.cx.mute -= 1
    w.st.mem[d.r.id] = step0
    u = univ_vec(w, e, N); u.r.base = default_base('univ'); u.r.meta['elem'] = DOUBLE; w.st.mem.pop(u.r.id, None)
    adj = None
    for ent in w.st.mem.get(e.r.id, ()):
        if ent[0] == 'C':
            for o, (v, sz) in ent[1].items():
                if isinstance(v, Ptr) and v.r.meta.get('adj'): adj = v.r
    if adj is None: raise Unsupported('adjacency container not identified')
    fams = {}
    def base(cx, st, off, ty, size):
        k = None
        for q in (0, 8, 16):
            try: k = exact_div(sub(off, I(q)), 24)
            except Unsupported: k = None
            if k is not None: break
        if k is None: raise Unsupported('adjacency element access')
        r = fams.get(k)
        n = app('adjn', [k], 'I')
        if r is None:
            def lb(cx_, st_, o_, ty_, sz_):
                i_ = exact_div(o_, 8)
                v = app('adj', [k, i_], 'I')
                st_.fact(and_(ge(v, I(0)), lt(v, N))); return v
            r = fams[k] = Region('adjlist', mul(n, I(8)), lb, {'const': True, 'elem': Ty('int', 64)})
        st.fact(and_(ge(n, I(0)), lt(n, I(MAXN))))
        return Ptr(r, 0) if q == 0 else Ptr(r, mul(n, I(8)))
    adj.base = base; w.st.mem.pop(adj.id, None)
    for b in (y, f): w.st.mem.pop(w.buf_data(b).r.id, None)
    w.fact(ne(imod(var('D_step', 'I'), rate), I(0)))
    sat_check(w, S, cls)
    w.vcall(e, cls, 'fcompute', [w.dref(var('t', 'R')), y, f])
    S.target('nbody_engine_ah::fcompute', 'nbody_engine_ah::fcompute_sparse')
    i, st = with_index(w, N)
    Y = arr('y'); M = arr('D_mass'); st.assume(ne(M(i), R(0)))
    F = w.buf_data(f); q = fresh('q', 'I')
    for c in range(3):
        w.goal('%s: d(r%s)/dt = v' % (cls, 'xyz'[c]), st, eq(w.rd(F, add(mul(I(c), N), i), st), Y(add(mul(I(c + 3), N), i))))
        a = app('adj', [i, q], 'I')
        near = sum_(q, I(0), app('adjn', [i], 'I'), acc_term(Y, M, N, c, i, a))
        w.goal('%s: d(v%s)/dt = stored far field / m + listed bodies' % (cls, 'xyz'[c]), st,
               eq(w.rd(F, add(mul(I(c + 3), N), i), st), add(div(app('univ', [add(mul(I(3), i), I(c))], 'R'), M(i)), near)))
    unchanged(w, S, 'y', w.buf_data(y), Y, mul(N, I(6)), w.st)
    unchanged(w, S, 'stored far field', u, arr('univ'), mul(N, I(3)), w.st)

def sections(tier):
    return [('force law', force_section),
            ('simple', engine_section('nbody_engine_simple')),
            ('openmp', engine_section('nbody_engine_openmp')),
            ('block', engine_section('nbody_engine_block', 64)),
            ('distance-limited, refresh step', ah_full),
            ('distance-limited, first call at any step', lambda S: ah_full(S, True)),
            ('distance-limited, step in between', ah_sparse)]
