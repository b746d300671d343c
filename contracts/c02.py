"""C02: vector algebra of the engines is elementwise exact, touches only its output and ignores invalid arguments."""
from contracts.englib import *

HARNESS = 'c02.cpp'
ENG = {'nbody_engine_simple': lambda: [], 'nbody_engine_openmp': lambda: [], 'nbody_engine_block': lambda: [],
       'nbody_engine_ah': lambda: [I(10), R(1), R(1)], 'nbody_engine_simple_bh_tree': lambda: [R(10), I(0), I(0)],
       'nbody_engine_simple_bh_heap': lambda: [R(10), I(0), I(0)], 'nbody_engine_simple_bh_heap_stackless': lambda: [R(10), I(0), I(0)]}
BOUNDED = ['fmaddn (linear combination into a separate output): term counts 0..5 by unrolling, any problem size, any coefficients; longer ones concretely',
           'non-CPU memory objects passed as arguments: concrete runs']

def setup(S, cls, names):
    w = S.world(); N = w.N()
    e, d, A = w.engine(cls, N, ENG[cls]())
    bufs = {}
    for n in names: bufs[n] = w.buffer(e, cls, mul(N, I(48)), n)
    sat_check(w, S, cls)
    return w, N, e, A, bufs

def elementwise(w, S, what, bufs, N, changed, spec, n=None):
    """for every element: the changed buffer holds spec(i), all others are as before"""
    n = n if n is not None else mul(N, I(6))
    i, st = with_index(w, n)
    if changed is not None:
        w.goal(what, st, eq(w.rd(w.buf_data(bufs[changed]), i, st), spec(i)))
    for b in bufs:
        if b != changed: unchanged(w, S, '%s: buffer %s' % (what, b), w.buf_data(bufs[b]), arr(b), mul(N, I(6)), w.st)

def case(S, cls, method, names, argf, changed, spec, what, pre=None):
    w, N, e, A, bufs = setup(S, cls, names)
    if pre: pre(w, N)
    w.vcall(e, cls, method, argf(w, bufs))
    S.target(base_name(w.cx.dem(w.vfn(cls, method))))
    elementwise(w, S, '%s::%s %s' % (cls, method, what), bufs, N, changed, spec)
    return w, N, bufs

def s_copy(cls):
    def sec(S):
        case(S, cls, 'copy_buffer', 'abx', lambda w, b: [b['a'], b['b']], 'a', arr('b'), 'a = b')
        case(S, cls, 'copy_buffer', 'ax', lambda w, b: [b['a'], b['a']], 'a', arr('a'), 'a = a')
        case(S, cls, 'copy_buffer', 'abx', lambda w, b: [NULL, b['b']], None, None, 'null a')
        case(S, cls, 'copy_buffer', 'abx', lambda w, b: [b['a'], NULL], None, None, 'null b')
    return sec
def s_fill(cls):
    def sec(S):
        w = S.world(); N = w.N(); e, d, A = w.engine(cls, N, ENG[cls]())
        n = w.N('n', 0)
        a = w.buffer(e, cls, mul(n, I(8)), 'a'); x = w.buffer(e, cls, mul(N, I(48)), 'x')
        w.vcall(e, cls, 'fill_buffer', [a, w.dref(var('v', 'R'))])
        S.target(base_name(w.cx.dem(w.vfn(cls, 'fill_buffer'))))
        i, st = with_index(w, n)
        w.goal('%s::fill_buffer: every element of any buffer = v' % cls, st, eq(w.rd(w.buf_data(a), i, st), var('v', 'R')))
        unchanged(w, S, 'other buffer', w.buf_data(x), arr('x'), mul(N, I(6)), w.st)
        case(S, cls, 'fill_buffer', 'ax', lambda w, b: [NULL, w.dref(var('v', 'R'))], None, None, 'null a')
    return sec
def s_fmadd_inplace(cls):
    c = var('c', 'R')
    def sec(S):
        case(S, cls, 'fmadd_inplace', 'abx', lambda w, b: [b['a'], b['b'], w.dref(c)], 'a', lambda i: add(arr('a')(i), mul(arr('b')(i), c)), 'a += b*c')
        case(S, cls, 'fmadd_inplace', 'ax', lambda w, b: [b['a'], b['a'], w.dref(c)], 'a', lambda i: mul(arr('a')(i), add(R(1), c)), 'a += a*c')
        case(S, cls, 'fmadd_inplace', 'abx', lambda w, b: [NULL, b['b'], w.dref(c)], None, None, 'null a')
        case(S, cls, 'fmadd_inplace', 'abx', lambda w, b: [b['a'], NULL, w.dref(c)], None, None, 'null b')
    return sec
def s_fmadd(cls):
    d = var('d', 'R')
    def sec(S):
        sp = lambda x, y: (lambda i: add(arr(x)(i), mul(arr(y)(i), d)))
        case(S, cls, 'fmadd', 'abcx', lambda w, b: [b['a'], b['b'], b['c'], w.dref(d)], 'a', sp('b', 'c'), 'a = b + c*d')
        case(S, cls, 'fmadd', 'acx', lambda w, b: [b['a'], b['a'], b['c'], w.dref(d)], 'a', sp('a', 'c'), 'a = a + c*d')
        case(S, cls, 'fmadd', 'abx', lambda w, b: [b['a'], b['b'], b['a'], w.dref(d)], 'a', sp('b', 'a'), 'a = b + a*d')
        for k in range(3):
            case(S, cls, 'fmadd', 'abcx', lambda w, b: [NULL if q == k else b['abc'[q]] for q in range(3)] + [w.dref(d)], None, None, 'null argument %d' % k)
    return sec
def s_maxabs(cls):
    def sec(S):
        w, N, e, A, bufs = setup(S, cls, 'ax')
        out = w.dref(var('res0', 'R'))
        w.vcall(e, cls, 'fmaxabs', [bufs['a'], out])
        S.target(base_name(w.cx.dem(w.vfn(cls, 'fmaxabs'))))
        r = w.cell(out)
        j = fresh('j', 'I')
        A_ = arr('a')
        w.goal('%s::fmaxabs = max |a_i|' % cls, w.st, eq(r, maxred(j, I(0), mul(N, I(6)), fabs(A_(j)))))
        i, st = with_index(w, mul(N, I(6)))
        w.goal('%s::fmaxabs bounds every element' % cls, st, le(fabs(A_(i)), r))
        for b in 'ax': unchanged(w, S, 'fmaxabs: buffer ' + b, w.buf_data(bufs[b]), arr(b), mul(N, I(6)), w.st)
        w, N, e, A, bufs = setup(S, cls, 'ax')
        out = w.dref(var('res0', 'R'))
        w.vcall(e, cls, 'fmaxabs', [NULL, out])
        w.goal('%s::fmaxabs of null leaves the result alone' % cls, w.st, eq(w.cell(out), var('res0', 'R')))
    return sec
def s_clamp(cls):
    def sec(S):
        w, N, e, A, bufs = setup(S, cls, 'yx')
        b = var('box', 'R'); w.st.fact(ge(b, R(0)))
        w.vcall(e, cls, 'clamp', [bufs['y'], b])
        S.target(base_name(w.cx.dem(w.vfn(cls, 'clamp'))))
        Y = arr('y')
        i, st = with_index(w, mul(N, I(3)))
        y = Y(i)
        u = ite(gt(y, b), sub(y, mul(R(2), b)), y)
        v = ite(lt(u, neg(b)), add(u, mul(R(2), b)), u)
        got = w.rd(w.buf_data(bufs['y']), i, st)
        w.goal('%s::clamp: coordinates wrap by one box length' % cls, st, eq(got, v))
        s3 = st.copy(); s3.assume(and_(le(y, mul(R(3), b)), ge(y, neg(mul(R(3), b)))))
        w.goal('%s::clamp: a coordinate up to one box outside ends inside' % cls, s3, and_(le(got, b), ge(got, neg(b))))
        i2, st2 = with_index(w, mul(N, I(6))); st2.assume(ge(i2, mul(N, I(3))))
        w.goal('%s::clamp: velocities unchanged' % cls, st2, eq(w.rd(w.buf_data(bufs['y']), i2, st2), Y(i2)))
        unchanged(w, S, 'clamp: other buffer', w.buf_data(bufs['x']), arr('x'), mul(N, I(6)), w.st)
        S.assume('box half-size is not negative')
    return sec

def fam_vector(w, e, cls, N, n, name):
    """a memory_array of n engine buffers (n symbolic): element k is a buffer whose contents are name(k, i)"""
    proto = w.buffer(e, cls, mul(N, I(48)), name + '_proto')
    cells = None
    for ent in w.st.mem[proto.r.id]:
        if ent[0] == 'C': cells = cells or {}; cells.update(ent[1])
    data = w.buf_data(proto)
    doff = next(o for o, (v, s) in cells.items() if isinstance(v, Ptr) and v.r is data.r)
    objs = {}
    def obj(k):
        if k in objs: return objs[k]
        def db(cx, st, off, ty, size):
            q = exact_div(off, 8)
            return app(name, [k, q], 'R')
        dr = Region(name + '[]', mul(N, I(48)), db, {'const': True, 'elem': DOUBLE})
        def ob(cx, st, off, ty, size):
            o = cval(off)
            if o is None: raise Unsupported('family object access')
            if int(o) == doff: return Ptr(dr, 0)
            return cells[int(o)][0]
        r = Region(name + '_obj', I(24), ob, {'cls': proto.r.meta.get('cls'), 'const': True})
        for kk in proto.r.meta:
            r.meta.setdefault(kk, proto.r.meta[kk])
        objs[k] = r
        return r
    def vb(cx, st, off, ty, size):
        return Ptr(obj(exact_div(off, 8)), 0)
    vd = Region(name + '_vec', mul(n, I(8)), vb, {'const': True})
    v = Region(name + '_vector', I(24), None, {})
    w.st.mem[v.id] = (('C', {0: (Ptr(vd, 0), 8), 8: (Ptr(vd, mul(n, I(8))), 8), 16: (Ptr(vd, mul(n, I(8))), 8)}),)
    return Ptr(v, 0)

def s_fmaddn_inplace(cls):
    def sec(S):
        w, N, e, A, bufs = setup(S, cls, 'ax')
        n = w.N('n', 0); cs = w.N('cs', 0); w.fact(le(cs, n))
        vec = fam_vector(w, e, cls, N, n, 'B')
        c = Region('c', mul(cs, I(8)), default_base('c'), {'elem': DOUBLE, 'const': True})
        w.vcall(e, cls, 'fmaddn_inplace', [bufs['a'], vec, Ptr(c, 0), cs])
        S.target(base_name(w.cx.dem(w.vfn(cls, 'fmaddn_inplace'))))
        k = fresh('k', 'I')
        elementwise(w, S, '%s::fmaddn_inplace: a += sum c_k b_k' % cls, bufs, N, 'a',
                    lambda i: add(arr('a')(i), sum_(k, I(0), cs, mul(app('B', [k, i], 'R'), arr('c')(k)))))
        # invalid: more coefficients than vectors; no coefficients
        w, N, e, A, bufs = setup(S, cls, 'ax')
        n = w.N('n', 0); cs = w.N('cs', 0); w.fact(gt(cs, n))
        vec = fam_vector(w, e, cls, N, n, 'B')
        c = Region('c', mul(cs, I(8)), default_base('c'), {'elem': DOUBLE, 'const': True})
        w.vcall(e, cls, 'fmaddn_inplace', [bufs['a'], vec, Ptr(c, 0), cs])
        elementwise(w, S, '%s::fmaddn_inplace with too many coefficients' % cls, bufs, N, None, None)
        w, N, e, A, bufs = setup(S, cls, 'ax')
        vec = fam_vector(w, e, cls, N, n, 'B')
        w.vcall(e, cls, 'fmaddn_inplace', [bufs['a'], vec, NULL, I(0)])
        elementwise(w, S, '%s::fmaddn_inplace with null coefficients' % cls, bufs, N, None, None)
    return sec

def s_fmaddn(cls, nmax=5):
    def sec(S):
        for n in range(0, nmax + 1):
            for mode in ('b', 'b, all coefficients zero', 'null', 'a=b'):
                if mode == 'b' and n == 0: continue
                w, N, e, A, bufs = setup(S, cls, 'abx')
                m = I(n + 1)
                vec = fam_vector(w, e, cls, N, m, 'B')
                c = Region('c', I(8 * max(n, 1)), default_base('c'), {'elem': DOUBLE, 'const': True})
                nz = or_(*[ne(arr('c')(I(k)), R(0)) for k in range(n)])
                if mode == 'b': w.fact(nz)
                if mode.startswith('b,'): w.fact(not_(nz))
                b = {'null': NULL, 'a=b': bufs['a']}.get(mode, bufs['b'])
                w.vcall(e, cls, 'fmaddn', [bufs['a'], b, vec, Ptr(c, 0), I(n)])
                S.target(base_name(w.cx.dem(w.vfn(cls, 'fmaddn'))))
                def spec(i):
                    r = {'null': R(0), 'a=b': arr('a')(i)}.get(mode, arr('b')(i))
                    if not mode.startswith('b,'):
                        for k in range(n): r = add(r, mul(app('B', [I(k), i], 'R'), arr('c')(I(k))))
                    return r
                elementwise(w, S, '%s::fmaddn, %d terms, base %s' % (cls, n, mode), bufs, N, 'a', spec)
        w, N, e, A, bufs = setup(S, cls, 'abx')
        vec = fam_vector(w, e, cls, N, I(3), 'B')
        w.vcall(e, cls, 'fmaddn', [bufs['a'], bufs['b'], vec, NULL, I(2)])
        elementwise(w, S, '%s::fmaddn with null coefficients' % cls, bufs, N, None, None)
    return sec

METHODS = [('copy_buffer', s_copy), ('fill_buffer', s_fill), ('fmadd_inplace', s_fmadd_inplace), ('fmadd', s_fmadd), ('fmaxabs', s_maxabs),
           ('clamp', s_clamp), ('fmaddn_inplace', s_fmaddn_inplace), ('fmaddn', s_fmaddn)]

def inherited(S):
    """every other engine class uses, slot by slot, a function verified here; an override is verified on its own class"""
    w = S.world()
    seen = {}
    for cls in ('nbody_engine_simple', 'nbody_engine_openmp'):
        for mth, sec in METHODS: seen[w.vfn(cls, mth)] = cls
    for cls in ENG:
        for mth, sec in METHODS:
            g = w.vfn(cls, mth)
            if g in seen: S.record('%s::%s is %s' % (cls, mth, base_name(w.cx.dem(g))), 'proved', 'vtable')
            else: sec(cls)(S); seen[g] = cls

def sections(tier):
    out = []
    for cls in ('nbody_engine_simple', 'nbody_engine_openmp'):
        for mth, sec in METHODS: out.append(('%s %s' % (cls.replace('nbody_engine_', ''), mth), sec(cls)))
    return out + [('other engine classes', inherited)]
