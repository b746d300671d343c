"""C07: the tableaux satisfy the Runge-Kutta order conditions of their documented order."""
from contracts.c06 import *
from nbv import trees
import numpy as np, time
from math import isqrt

# documented order (README) of the advancing weights b2 and order of the comparison weights b1; (order b2 has on the pinned tree where lower: a finding)
DOC = {'rkck': (5, 4, 5), 'rkdp': (5, 4, 5), 'rkdverk': (5, 5, 6), 'rkf': (7, 7, 7), 'rkfeagin10': (10, 10, 8), 'rkfeagin12': (12, 12, 10), 'rkfeagin14': (14, 14, 12), 'rkgl': (6, 2, 6), 'rklc': (4, 2, 4)}
EXACT = {'rkck', 'rkdp', 'rkdverk', 'rkgl', 'rklc', 'rkf', 'rk4'}
TOL = 2e-13
HARNESS = 'solvers.cpp'; HARNESS_GROUPS = ['c07']
ASSUME = ['documented orders are those of README.md; order conditions hold up to the rounding of the coefficients to double (residual at most %g)' % TOL,
          'order conditions of the Feagin tableaux are evaluated in 80 bit floating point (residual margin 1e-13 against an evaluation error below 1e-16), the others in exact rational arithmetic']

def num(t):
    """exact rational value of a closed term; square roots to 2^-200"""
    v = cval(t)
    if v is not None: return Fraction(v)
    if t.op == 'poly':
        s = Fraction(0)
        for m, c in items(t):
            p = Fraction(c)
            for a, e in m: p *= num(a) ** e
            s += p
        return s
    if t.op == 'sqrt':
        x = num(t.args[0]); k = 1 << 400
        return Fraction(isqrt(int(x * k)), 1 << 200)
    if t.op == 'inv': return 1 / num(t.args[0])
    raise Unsupported('coefficient is not a constant: %s' % show(t))
from nbv.terms import items, show

def judge(S, name, A, b, n, what, tol=TOL):
    t0 = time.time()
    TG = trees.trees(n)
    s = len(b)
    if name in EXACT:
        res = trees.conditions_exact(A, b, n, *TG); how = 'exact rational arithmetic'
    else:
        L = lambda x: np.longdouble(x.numerator) / np.longdouble(x.denominator) if x.denominator.bit_length() < 16000 else np.longdouble(float(x))
        An = np.zeros((s, s), dtype=np.longdouble)
        for i in range(s):
            for j, x in enumerate(A[i]): An[i, j] = L(x)
        res = trees.conditions(An, np.array([L(x) for x in b], dtype=np.longdouble), n, *TG); how = '80 bit floating point'
    for m, (r, t, cnt) in enumerate(res, 1):
        S.record('%s: all %d conditions of order %d' % (what, cnt, m), 'proved' if r <= tol else 'refuted', how, 'residual %g for the tree %s (tolerance %g)' % (r, trees.show(t, TG[0]), tol))
    S.stime += time.time() - t0

def s_table(name):
    cls = 'nbody_solver_' + name
    def sec(S):
        w = S.world(); ae = AbsEngine(w); s = solver(w, ae, cls)
        t = read_table(w, w.call1('nbody_solver_rk_butcher::table() const', [s]))
        table(S, name, t, cls)
        S.target(*['nbody_butcher_table_%s::%s' % (name, g) for g in ('get_a', 'get_b1', 'get_b2', 'get_c', 'get_steps')])
    return sec
def table(S, name, t, cls):
    n = t.s
    A = [[num(x) for x in r] + [Fraction(0)] * (n - len(r)) for r in t.a]
    b2 = [num(x) for x in t.b2]; c = [num(x) for x in t.c]
    doc, now, p1 = DOC.get(name, (4, 4, 0))
    worst = max(abs(sum(r) - x) / max(1, max(abs(q) for q in r)) for r, x in zip(A, c))
    S.record('%s: nodes are the row sums' % cls, 'proved' if worst <= TOL else 'refuted', 'exact rational arithmetic', 'deviation %g' % float(worst))
    judge(S, name, A, b2, now, '%s advancing weights' % cls)
    if now != doc:
        TG = trees.trees(doc); res = trees.conditions_exact(A, b2, doc, *TG)
        S.record('%s: advancing weights have the documented order %d' % (cls, doc), 'proved' if max(r[0] for r in res) <= TOL else 'refuted', 'exact rational arithmetic', str(res))
    if t.b1 is not None and p1:
        b1 = [num(x) for x in t.b1]
        judge(S, name, A, b1, p1, '%s comparison weights' % cls)
        if t.embedded: S.record('%s: the embedded weights differ' % cls, 'proved' if any(x != y for x, y in zip(b1, b2)) else 'refuted', 'exact rational arithmetic')
def s_rk4(S):
    w = S.world()
    bt = w.ctor('nbody_butcher_table_rk4')
    t = read_table(w, bt)
    t.b1 = None
    table(S, 'rk4', t, 'nbody_butcher_table_rk4')
    S.target('nbody_butcher_table_rk4::get_a')
def sections(tier): return [(n, s_table(n)) for n in DOC] + [('rk4 tableau', s_rk4)]
