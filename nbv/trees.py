"""Rooted trees and Runge-Kutta order conditions, evaluated with rational-free extended arithmetic on the real tableau."""
import numpy as np
from math import comb

def trees(n):
    """rooted trees with up to n nodes: list per order of (tuple of children as (order, index) in non-decreasing order), with gamma"""
    T = [None, [()]]; G = [None, [1]]
    for m in range(2, n + 1):
        out = []; gam = []
        # multisets of trees with total m-1 nodes
        def rec(rem, mo, mi, cur, g):
            if rem == 0: out.append(tuple(cur)); gam.append(m * g); return
            for o in range(min(rem, mo), 0, -1):
                hi = mi if o == mo else len(T[o]) - 1
                for i in range(hi, -1, -1):
                    cur.append((o, i)); rec(rem - o, o, i, cur, g * G[o][i]); cur.pop()
        rec(m - 1, m - 1, len(T[m - 1]) - 1, [], 1)
        T.append(out); G.append(gam)
    return T, G

def conditions(A, b, n, T=None, G=None):
    """max over the trees of each order of |sum b_i Phi_i - 1/gamma|, A and b numpy longdouble"""
    if T is None: T, G = trees(n)
    P = [None]; AP = [None]; res = []; s = len(b)
    for m in range(1, n + 1):
        ph = np.ones((len(T[m]), s), dtype=np.longdouble)
        # multiply by AP of each child, vectorised over the trees by child position
        k = 0
        while True:
            idx = [(q, t[k]) for q, t in enumerate(T[m]) if len(t) > k]
            if not idx: break
            for o in set(c[0] for _, c in idx):
                rows = np.array([q for q, c in idx if c[0] == o]); ci = np.array([c[1] for _, c in idx if c[0] == o])
                ph[rows] *= AP[o][ci]
            k += 1
        r = np.abs(ph @ b - 1 / np.array(G[m], dtype=np.longdouble))
        w = int(np.argmax(r)); res.append((float(r[w]), T[m][w], len(T[m])))
        if m < n: AP.append(ph @ A.T)
    return res
def show(t, T):
    return '[' + ''.join(show(T[o][i], T) for o, i in t) + ']'

def conditions_exact(A, b, n, T=None, G=None):
    """the same in exact rational arithmetic (Fractions)"""
    from fractions import Fraction
    if T is None: T, G = trees(n)
    s = len(b); AP = [None]; res = []
    for m in range(1, n + 1):
        worst = (Fraction(0), (), len(T[m])); ap = []
        for t, g in zip(T[m], G[m]):
            ph = [Fraction(1)] * s
            for o, i in t: ph = [x * y for x, y in zip(ph, AP[o][i])]
            r = abs(sum(x * y for x, y in zip(b, ph)) - Fraction(1, g))
            if r > worst[0]: worst = (r, t, len(T[m]))
            if m < n: ap.append([sum(x * y for x, y in zip(row, ph)) for row in A])
        AP.append(ap); res.append((float(worst[0]), worst[1], worst[2]))
    return res
