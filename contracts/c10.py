"""C10: heap index functions are one consistent binary tree walked in preorder (bit-precise, all indices)."""
import z3, os
from nbv.bv import BV
from nbv.symex import Unsupported, base_name
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = 'c10.cpp'
HARNESS_TUS = []
EXTRACT = dict(only=['-none-'], extra_src=(ROOT + '/harness/inst/heap_func.cpp',))
ASSUME = ['indices below 2^31 (both index types): larger trees do not fit in memory']
BOUNDED = ['the fallback loops of next_down for compilers without a bit count instruction (OpenCL 1.x): concrete runs of the same text']

def names(mod, ty):
    out = {}
    for k, v in mod.dem.items():
        p = 'nbody_heap_func<%s>::' % ty
        if p in v and k in mod.funcs: out[base_name(v).split('::')[-1]] = k
    return out

def part(ty, bits):
    def sec(S):
        B = BV(S.m); F = names(S.m, ty)
        need = ('left_idx', 'rght_idx', 'parent_idx', 'is_left', 'is_right', 'left2right', 'next_down', 'skip_idx', 'next_up')
        for n in need:
            if n not in F: raise Unsupported('no function %s here' % n)
            S.target('nbody_heap_func<%s>::%s' % (ty, n))
        i = z3.BitVec('i', bits); size = z3.BitVec('size', bits)
        V = lambda c: z3.BitVecVal(c, bits)
        lim = 1 << 30
        inner = [z3.UGE(i, V(1)), z3.ULT(i, V(lim >> 1))]
        node = [z3.UGE(i, V(1)), z3.ULT(i, V(lim))]
        def fn(n, *a):
            r = B.call(F[n], list(a))
            return r
        def flag(n, *a): r = fn(n, *a); return r != z3.BitVecVal(0, r.size())
        def goal(name, hyps, g):
            r, m = B.prove(hyps, g)
            S.record('%s: %s' % (ty, name), 'proved' if r else 'refuted' if r is False else 'unknown', 'z3 bit vectors', '' if r else 'counterexample: %s' % m)
        L, Rr = fn('left_idx', i), fn('rght_idx', i)
        goal('left child is 2i', inner, L == 2 * i)
        goal('right child is 2i+1', inner, Rr == 2 * i + 1)
        goal('parent of the left child', inner, fn('parent_idx', L) == i)
        goal('parent of the right child', inner, fn('parent_idx', Rr) == i)
        goal('left child is left', inner, z3.And(flag('is_left', L), z3.Not(flag('is_right', L))))
        goal('right child is right', inner, z3.And(flag('is_right', Rr), z3.Not(flag('is_left', Rr))))
        goal('right sibling of the left child', inner, fn('left2right', L) == Rr)
        goal('every node but the root is a child of its parent', node + [i != V(1)], z3.If(flag('is_left', i), fn('left_idx', fn('parent_idx', i)) == i, fn('rght_idx', fn('parent_idx', i)) == i))
        nd = lambda x: fn('next_down', x)
        goal('after a left subtree comes its sibling', inner, nd(L) == Rr)
        goal('after a right subtree comes what follows the parent', inner, nd(Rr) == nd(i))
        goal('after the root the walk ends at the root', [], nd(V(1)) == V(1))
        goal('skip is next_down', node, fn('skip_idx', i) == nd(i))
        up = fn('next_up', i, size)
        dom = node + [z3.UGE(size, V(2)), z3.ULE(size, V(lim)), z3.Extract(0, 0, size) == 0, z3.ULT(i, size)]
        goal('a node with children continues with its left child', dom + [z3.ULT(2 * i, size)], up == 2 * i)
        goal('a node without children continues as if skipped', dom + [z3.UGE(2 * i, size)], up == nd(i))
        goal('the walk stays inside the tree', dom, z3.And(z3.ULT(nd(i), size), z3.UGE(nd(i), V(1)), z3.ULT(up, size), z3.UGE(up, V(1))))
        # termination and no node twice: position in preorder grows strictly
        w = 64
        def key(x):
            r = z3.ZeroExt(w - bits, x) if bits < w else x
            lev = z3.BitVecVal(0, w)
            for k in (32, 16, 8, 4, 2, 1):
                c = z3.LShR(r, w - k) == 0
                r = z3.If(c, r << k, r); lev = z3.If(c, lev, lev + k)
            return r, lev
        def after(a, b):
            ka, la = key(a); kb, lb = key(b)
            return z3.Or(z3.UGT(kb, ka), z3.And(kb == ka, z3.UGT(lb, la)))
        goal('skipping moves strictly forward in preorder, or ends', dom, z3.Or(nd(i) == V(1), after(i, nd(i))))
        goal('walking moves strictly forward in preorder, or ends', dom, z3.Or(up == V(1), after(i, up)))
        # a skip passes over the whole subtree and nothing else: the first index after i that is not below i, in preorder
        j = z3.BitVec('j', bits)
        kj, lj = key(j); ki, li = key(i)
        below = z3.LShR(z3.ZeroExt(w - bits, j) if bits < w else j, lj - li) == (z3.ZeroExt(w - bits, i) if bits < w else i)
        jd = [z3.UGE(j, V(1)), z3.ULT(j, V(1 << 12)), z3.ULT(i, V(1 << 12)), z3.UGT(size, i), z3.UGT(size, j), z3.ULE(size, V(1 << 12)), z3.Extract(0, 0, size) == 0, z3.UGE(i, V(1))]
        goal('skipping leaves out exactly the subtree (trees up to 2048 bodies)', jd + [after(i, j)], z3.Or(z3.And(z3.UGE(lj, li), below), z3.And(nd(i) != V(1), z3.Or(nd(i) == j, after(nd(i), j)))))
        for pc, c, wh in B.ub:
            r, m = B.prove(node + [pc, z3.UGE(size, V(2)), z3.ULE(size, V(lim))], z3.Not(c))
            S.record('%s: no undefined %s' % (ty, wh), 'proved' if r else 'refuted' if r is False else 'unknown', 'z3 bit vectors', '' if r else str(m))
        S.stime += B.stime
    return sec

def sections(tier):
    return [('size_t indices', part('unsigned long', 64)), ('int indices', part('int', 32))]
