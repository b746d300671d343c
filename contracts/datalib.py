"""Symbolic nbody_data with all of its members, and helpers for loops with early exit."""
import os
from contracts.englib import *
from nbv import loops
from nbv.symex import _read
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRACT = dict(only=['nbody_data.cpp'], extra=('-fno-access-control',), extra_src=(ROOT + '/harness/inst/data.cpp',))
U64 = Ty('int', 64)
FIELDS = (('vrt', 3, 8, DOUBLE), ('vel', 3, 8, DOUBLE), ('mass', 1, 8, DOUBLE), ('radius', 1, 8, DOUBLE), ('color', 4, 4, FLOAT))
def off(w, n):
    t, v, k = w.m.global_init('nbv_' + n)
    return int(v[1])
class Data:
    """an nbody_data with N bodies and arbitrary contents, built by the real constructor and then made arbitrary"""
    def __init__(self, w, N, tag='D', ctor=False):
        self.w = w; self.N = N; self.tag = tag; self.A = {}
        if ctor: self.p = w.ctor('nbody_data', [])
        else: self.p = Ptr(Region(tag, None, None, {'cls': 'nbody_data'}), 0)
        self.r = self.p.r; st = w.st
        for f, n, es, ty in FIELDS:
            by = mul(N, I(n * es)); a = Region('%s.%s' % (tag, f), by, default_base('%s_%s' % (tag, f)), {'elem': ty, 'heap': True, 'vec': True})
            self.A[f] = a; o = off(w, 'd_' + f)
            for k, v in ((0, Ptr(a, 0)), (8, Ptr(a, by)), (16, Ptr(a, by))): loops.set_cell(st, self.r, o + k, v, 8)
        step = var(tag + '_step', 'I'); box = var(tag + '_box', 'I'); tstep = var(tag + '_tstep', 'I'); cc = var(tag + '_prevcc', 'I')
        for v in (step, box, tstep, cc): st.fact(and_(ge(v, I(0)), lt(v, I(1 << 62))))
        for f, v in (('count', N), ('time', var(tag + '_time', 'R')), ('step', step), ('box', box), ('tstep', tstep), ('prev_cc', cc), ('tstart', var(tag + '_tstart', 'R'))):
            loops.set_cell(st, self.r, off(w, 'd_' + f), v, 8)
    def vec(self, f, st=None):
        """(data pointer, size in bytes) of a member array now"""
        st = st or self.w.st; o = off(self.w, 'd_' + f); cx = self.w.cx
        b = load(cx, st, Ptr(self.r, I(o)), PTR); e = load(cx, st, Ptr(self.r, I(o + 8)), PTR)
        return b, e
    def get(self, f, st=None, ty=None):
        st = st or self.w.st
        return load(self.w.cx, st, Ptr(self.r, I(off(self.w, 'd_' + f))), ty or (DOUBLE if f in ('time', 'tstart') else U64))
    def old(self, f): return arr('%s_%s' % (self.tag, f)) if f != 'color' else arr('%s_%s' % (self.tag, f))
    def at(self, f, i, q, st):
        n, es, ty = next((n, es, ty) for g, n, es, ty in FIELDS if g == f)
        b, _ = self.vec(f, st)
        return self.w.rd(b, add(mul(I(i), I(n)), I(q)), st, ty)
    def base_at(self, f, i, q):
        n, es, ty = next((n, es, ty) for g, n, es, ty in FIELDS if g == f)
        s = State(); a = self.A[f]
        return a.base(self.w.cx, s, mul(add(mul(I(i), I(n)), I(q)), I(es)), ty, es)
    def arrays_of(self, n, st, what):
        """the five member arrays have n entries, and the count says so"""
        w = self.w
        w.goal(what + ': count', st, eq(self.get('count', st), n))
        for f, m, es, ty in FIELDS:
            b, e = self.vec(f, st)
            if isinstance(b, NullT) or isinstance(e, NullT): w.goal('%s: %s has one entry per body' % (what, f), st, eq(n, I(0)) if isinstance(b, NullT) and isinstance(e, NullT) else FALSE)
            else: w.goal('%s: %s has one entry per body' % (what, f), st, eq(sub(e.o, b.o), mul(n, I(m * es))) if b.r is e.r else FALSE)
    def keep(self, n, st, what, fields=None):
        """bodies below n as before"""
        i = fresh('i', 'I'); s = st.copy(); s.assume(and_(ge(i, I(0)), lt(i, n)))
        for f, m, es, ty in FIELDS:
            if fields is not None and f not in fields: continue
            for q in range(m): self.w.goal('%s: %s %d of the other bodies unchanged' % (what, f, q), s, eq(self.at(f, i, q, s), self.base_at(f, i, q)))

def search_loop(w, n, pred, what):
    """contract of a loop that looks through k = 0..n-1 and stops early exactly when pred(state, k) holds: leaving early means pred(k) for the current k,
    going on means not pred(k); so running to the end means no k < n with pred."""
    used = []
    def h(ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]
        phis = [i for i in f.blocks[header].insts if i.op == 'phi']
        if len(phis) != 1 or phis[0].ty.k != 'int': raise Unsupported('shape of the search loop')
        p = phis[0].res; used.append(1); out = []
        cx.oblige('contract', what + ': the search starts at the first body', st, eq(env[p], I(0)))
        k = fresh('k', 'I'); s = st.copy(); s.assume(and_(ge(k, I(0)), lt(k, n))); e = dict(env); e[p] = k
        for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
            if dest == header:
                e3 = ex.phis(f, header, pr, e2, s2)
                cx.oblige('contract', what + ': the next body follows', s2, eq(e3[p], add(k, I(1))))
                cx.oblige('contract', what + ': no difference is passed over', s2, not_(pred(s2, k)))
            else:
                s2.ghost['found'] = k
                cx.oblige('contract', what + ': an early end has a reason', s2, pred(s2, k)); out.append((dest, pr, s2, e2))
        s = st.copy(); e = dict(env); e[p] = n
        done = [o for o in loops.fork(ex, f, depth, header, blocks, s, e)]
        if any(d == header for d, _, _, _ in done): cx.oblige('contract', what + ': ends after the last body', st, FALSE)
        for d, pr, s2, e2 in done:
            if d != header: s2.ghost['found'] = None; out.append((d, pr, s2, e2))
        return out
    h.used = used
    return h
