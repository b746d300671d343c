"""Specification vocabulary shared by the engine contracts."""
from nbv.world import *
from nbv.symex import *
from nbv import models
from fractions import Fraction

EPS = R(Fraction(1e-8))          # the softening constant, as the double the code uses
def arr(name): return lambda k: app(name, [I(k)], 'R')

def diff(Y, N, c, i, j): return sub(Y(add(mul(I(c), N), i)), Y(add(mul(I(c), N), j)))
def r2soft(Y, N, i, j):
    n2 = R(0)
    for q in range(3):
        d = diff(Y, N, q, i, j); n2 = add(n2, mul(d, d))
    return ite(lt(n2, EPS), EPS, n2)
def acc_term(Y, M, N, c, i, j):
    """component c of the acceleration body j gives body i"""
    r2 = r2soft(Y, N, i, j)
    return div(mul(neg(diff(Y, N, c, i, j)), M(j)), mul(r2, sqrt(r2)))

def unchanged(w, S, what, p, orig, n, st, ty=DOUBLE):
    """frame goal: array p still holds orig(i) for every i < n"""
    i = fresh('q', 'I')
    s = st.copy(); s.assume(and_(ge(i, I(0)), lt(i, n)))
    return w.goal('frame: %s unchanged' % what, s, eq(w.rd(p, i, s, ty), orig(i)))

def with_index(w, n, lo=0):
    i = fresh('i', 'I'); s = w.st.copy(); s.assume(and_(ge(i, I(lo)), lt(i, n)))
    return i, s

def sat_check(w, S, what):
    """vacuity guard: the precondition state must be satisfiable"""
    r = w.cx.pv.check(w.st.hyps(), TRUE, 5000)
    if r == 'unsat': raise Unsupported('contradictory precondition in ' + what)
