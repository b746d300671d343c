"""Bit-precise back end for integer functions: the LLVM IR of the real function, executed path by path over z3 bit vectors.
Loops are unrolled as long as the path is feasible (a loop over the bits of an index ends by itself); calls go into the callee."""
import z3, time
from .ir import Unsupported

class BV:
    def __init__(self, mod, maxiter=70):
        self.m = mod; self.maxiter = maxiter; self.stime = 0.0; self.nq = 0; self.used = set()
        self.ub = []                     # (path condition, undefined behaviour condition, where)
    def sat(self, c):
        s = z3.Solver(); s.set('timeout', 20000); s.add(c)
        t = time.time(); r = s.check(); self.stime += time.time() - t; self.nq += 1
        return r != z3.unsat
    def prove(self, hyps, goal):
        """(True, None), (False, model) or (None, None)"""
        s = z3.Solver(); s.set('timeout', 60000); s.add(*hyps); s.add(z3.Not(goal))
        t = time.time(); r = s.check(); self.stime += time.time() - t; self.nq += 1
        if r == z3.unsat: return True, None
        if r == z3.sat: return False, s.model()
        return None, None
    def width(self, t):
        if t.k != 'int': raise Unsupported('bit-vector back end: type %r' % t)
        return t.a
    def val(self, t, v, env):
        if v[0] == 'reg': return env[v[1]]
        if v[0] == 'int': return z3.BitVecVal(v[1], self.width(t))
        if v[0] in ('undef', 'poison'): return z3.BitVec('undef!%d' % id(v), self.width(t))
        if v[0] == 'true': return z3.BitVecVal(1, 1)
        if v[0] == 'false': return z3.BitVecVal(0, 1)
        raise Unsupported('bit-vector operand %r' % (v,))
    def call(self, name, args, pc=None, depth=0):
        """value of the function as one term (an if-then-else over its paths)"""
        f = self.m.funcs[name]; self.used.add(name)
        if depth > 8: raise Unsupported('recursion in bit-vector code')
        pc = pc if pc is not None else z3.BoolVal(True)
        b0 = next(iter(f.blocks))
        rets = []
        env = dict(zip([p if isinstance(p, str) else p[1] for p in f.params], args))
        work = [(b0, None, env, pc, 0)]
        while work:
            blk, prev, env, pc, n = work.pop()
            if n > self.maxiter * 12: raise Unsupported('unbounded loop in bit-vector code')
            env = dict(env)
            ph = {}
            for i in f.blocks[blk].insts:
                if i.op != 'phi': break
                ph[i.res] = next(self.val(i.ty, v, env) for v, l in i.a if l == prev)
            env.update(ph)
            for i in f.blocks[blk].insts:
                if i.op in ('phi', 'nop'): continue
                if i.op == 'ret':
                    rets.append((pc, self.val(i.ty, i.a[0], env))); break
                if i.op == 'unreachable': break
                if i.op == 'br':
                    if i.a[0] is None: work.append((i.a[1], blk, env, pc, n + 1)); break
                    from .ir import Ty
                    c = env[i.a[0][1]] if i.a[0][0] == 'reg' else None
                    if c is None: raise Unsupported('branch operand')
                    c = c == 1
                    for d, cc in ((i.a[1], c), (i.a[2], z3.Not(c))):
                        p2 = z3.simplify(z3.And(pc, cc))
                        if self.sat(p2): work.append((d, blk, env, p2, n + 1))
                    break
                self.inst(i, env, pc, depth)
        if not rets: raise Unsupported('no return path')
        r = rets[-1][1]
        for c, v in rets[:-1]: r = z3.If(c, v, r)
        return r
    def inst(self, i, env, pc, depth):
        op = i.op; V = lambda t, v: self.val(t, v, env)
        w = '%s line %s' % (op, i.line)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a, b = V(i.ty, i.a[0]), V(i.ty, i.a[1]); n = self.width(i.ty)
            if op in ('shl', 'lshr', 'ashr'): self.ub.append((pc, z3.UGE(b, z3.BitVecVal(n, n)), 'shift count, ' + w))
            if op in ('udiv', 'urem', 'sdiv', 'srem'): self.ub.append((pc, b == 0, 'division by zero, ' + w))
            env[i.res] = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                          'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
                          'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op](); return
        if op == 'icmp':
            a, b = V(i.ty, i.a[1]), V(i.ty, i.a[2])
            c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[i.a[0]]()
            env[i.res] = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); return
        if op in ('zext', 'sext', 'trunc'):
            a = V(*i.a); n = self.width(i.ty)
            env[i.res] = z3.ZeroExt(n - a.size(), a) if op == 'zext' else z3.SignExt(n - a.size(), a) if op == 'sext' else z3.Extract(n - 1, 0, a); return
        if op == 'select':
            from .ir import Ty
            c = env[i.a[0][1]]; env[i.res] = z3.If(c == 1, V(i.ty, i.a[1]), V(i.ty, i.a[2])); return
        if op == 'freeze': env[i.res] = V(i.ty, i.a[0]); return
        if op == 'call':
            cal = i.a[0]
            if cal[0] != 'glob': raise Unsupported('indirect call in bit-vector code')
            nm = cal[1]; a = [V(t, v) for t, v, _ in i.a[1]]
            if nm.startswith('llvm.cttz.') or nm.startswith('llvm.ctlz.'):
                x = a[0]; n = x.size(); hi = nm.startswith('llvm.ctlz.')
                r = z3.BitVecVal(n, n)
                for k in (range(n) if hi else range(n - 1, -1, -1)):
                    r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(n - 1 - k if hi else k, n), r)
                if z3.is_true(z3.simplify(a[1] == 1)): self.ub.append((pc, x == 0, 'bit count of zero, ' + w))
                env[i.res] = r; return
            if nm.startswith('llvm.ctpop.'):
                x = a[0]; n = x.size(); r = z3.BitVecVal(0, n)
                for k in range(n): r = r + z3.ZeroExt(n - 1, z3.Extract(k, k, x))
                env[i.res] = r; return
            if nm.startswith('llvm.umin.') or nm.startswith('llvm.umax.'):
                c = z3.ULT(a[0], a[1]); env[i.res] = z3.If(c, *(a if 'umin' in nm else a[::-1])); return
            if nm in self.m.funcs:
                env[i.res] = self.call(nm, a, pc, depth + 1); return
            raise Unsupported('call of %s in bit-vector code' % nm)
        raise Unsupported('instruction %s in bit-vector code' % op)
