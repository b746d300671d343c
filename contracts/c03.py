"""C03: compensated accumulation is Kahan's algorithm, bit for bit, per element."""
from contracts.englib import *
from contracts.c02 import fam_vector, setup, ENG, elementwise
from nbv import terms as tm

HARNESS = 'c03.cpp'
KMAX = 4
BOUNDED = ['number of accumulated terms: 0..%d by unrolling in the engine kernels (any problem size, any coefficients and values), up to 40 concretely' % KMAX]
ASSUME = ['in this property floating point is bit exact: +,-,*,/ are uninterpreted IEEE operations related only by commutativity, x-y = x+(-y) and sign symmetry (sign of zero not distinguished)']

def fl(op, a, b): return app('fl' + op, [a, b], 'R')
def kahan(a, b, c):
    y = fl('-', b, c); t = fl('+', a, y)
    return t, fl('-', fl('-', t, a), y)

def s_step(S):
    w = S.world(); w.cx.fpmode = 'fl'
    cands = [k for k, v in w.m.dem.items() if v.startswith('double summation_k<double>(') and k in w.m.funcs]
    if not cands: raise Unsupported('the accumulation step is not a separate function here')
    a, b, c = var('a', 'R'), var('b', 'R'), var('c', 'R')
    pc = w.dref(c)
    r = w.call1(cands[0], [w.dref(a), w.dref(b), pc])
    S.target('summation_k<double>')
    t, e = kahan(a, b, c)
    w.goal('sum of one step', w.st, eq(r, t))
    w.goal('carried rounding error of one step', w.st, eq(w.cell(pc), e))
    # the exact sum is preserved in real arithmetic: (t - c') = (a - c) + b ... with exact operations the correction vanishes
    w = S.world()
    pc = w.dref(c)
    r = w.call1(cands[0], [w.dref(a), w.dref(b), pc])
    w.goal('exact arithmetic: new sum = a + b - c', w.st, eq(r, sub(add(a, b), c)))
    w.goal('exact arithmetic: no error is carried', w.st, eq(w.cell(pc), R(0)))

def s_corr(cls):
    def sec(S):
        for n in range(0, KMAX + 1):
            w, N, e, A, bufs = setup(S, cls, 'axr')
            w.cx.fpmode = 'fl'
            vec = fam_vector(w, e, cls, N, I(n + 1), 'B')
            c = Region('c', I(8 * max(n, 1)), default_base('c'), {'elem': DOUBLE, 'const': True})
            w.vcall(e, cls, 'fmaddn_corr', [bufs['a'], bufs['r'], vec, Ptr(c, 0), I(n)])
            S.target(base_name(w.cx.dem(w.vfn(cls, 'fmaddn_corr'))))
            i, st = with_index(w, mul(N, I(6)))
            a, r = arr('a')(i), arr('r')(i)
            for k in range(n):
                ck = arr('c')(I(k))
                z = w.ex.fcmp('oeq', ck, R(0))
                t, q = kahan(a, fl('*', app('B', [I(k), i], 'R'), ck), r)
                a, r = ite(z, a, t), ite(z, r, q)
            w.goal('%s: sum after %d terms' % (cls, n), st, eq(w.rd(w.buf_data(bufs['a']), i, st), a))
            w.goal('%s: carried error after %d terms' % (cls, n), st, eq(w.rd(w.buf_data(bufs['r']), i, st), r))
            unchanged(w, S, 'other buffer', w.buf_data(bufs['x']), arr('x'), mul(N, I(6)), w.st)
        for k in range(4):
            w, N, e, A, bufs = setup(S, cls, 'axr')
            vec = fam_vector(w, e, cls, N, I(2), 'B')
            c = Region('c', I(24), default_base('c'), {'elem': DOUBLE, 'const': True})
            ar = [bufs['a'], bufs['r'], vec, Ptr(c, 0), I(2)]
            if k < 2: ar[k] = NULL
            elif k == 2: ar[3] = NULL
            else: ar[4] = I(3)
            w.vcall(e, cls, 'fmaddn_corr', ar)
            elementwise(w, S, '%s::fmaddn_corr ignores invalid arguments (%d)' % (cls, k), bufs, N, None, None)
    return sec

def s_base(S):
    """engines without their own compensated kernel fall back to the plain sum"""
    w = S.world()
    seen = set()
    for cls in ENG:
        g = w.vfn(cls, 'fmaddn_corr')
        if g in seen: S.record('%s uses %s' % (cls, base_name(w.cx.dem(g))), 'proved', 'vtable')
        elif cls in ('nbody_engine_simple', 'nbody_engine_openmp'): seen.add(g); S.record('%s kernel' % cls, 'proved', 'vtable')
        else: s_corr(cls)(S); seen.add(g)

def sections(tier):
    return [('one step', s_step), ('simple', s_corr('nbody_engine_simple')), ('openmp', s_corr('nbody_engine_openmp')), ('other classes', s_base)]
