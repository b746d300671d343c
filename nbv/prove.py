"""Obligation discharge: ring normaliser + case splitting + z3 (cvc5 as second opinion)."""
import time, z3
from fractions import Fraction
from .terms import *
from . import terms as tm

class ToZ3:
    def __init__(self):
        self.memo = {}
        self.side = {}      # term -> side facts (sqrt)
        self.fun = {}
    def sort(self, s):
        if s == 'I': return z3.IntSort()
        if s == 'R': return z3.RealSort()
        if s == 'B': return z3.BoolSort()
        return self._usort(s)
    def _usort(self, s):
        k = ('sort', s)
        if k not in self.fun: self.fun[k] = z3.DeclareSort('S_' + s)
        return self.fun[k]
    def conv(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._conv(t); self.memo[t] = r
        return r
    def _num(self, c, s):
        if s == 'I' : return z3.IntVal(int(c))
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator))
    def _conv(self, t):
        o = t.op; A = t.args
        if o == 'poly':
            parts = []
            den = 1
            for m, c in A[0]:
                num = []; dn = []
                for a, e in m:
                    x = self.conv(a)
                    (num if e > 0 else dn).extend([x] * abs(e))
                if t.sort == 'I' and c.denominator != 1:
                    raise ValueError('fractional int coefficient')
                f = [self._num(c, t.sort)] if c != 1 or not num else []
                p = f + num
                e = p[0]
                for q in p[1:]: e = e * q
                for q in dn: e = e / q
                parts.append(e)
            if not parts: return self._num(Fraction(0), t.sort)
            if len(parts) == 1: return parts[0]
            return z3.Sum(parts)
        if o == 'var': return z3.Const(A[0], self.sort(t.sort))
        if o == 'app':
            xs = [self.conv(a) for a in A[1:]]
            k = (A[0], tuple(x.sort().name() for x in xs), t.sort)
            if k not in self.fun:
                self.fun[k] = z3.Function(str(A[0]), *([x.sort() for x in xs] + [self.sort(t.sort)]))
            return self.fun[k](*xs) if xs else z3.Const(str(A[0]), self.sort(t.sort))
        if o == 'div': return self.conv(A[0]) / self.conv(A[1])
        if o == 'mod': return self.conv(A[0]) % self.conv(A[1])
        if o == 'inv': return z3.RealVal(1) / self.conv(A[0])
        if o == 'inv0': return z3.Const('inv0', z3.RealSort())
        if o == 'i2r': return z3.ToReal(self.conv(A[0]))
        if o == 'sqrt':
            f = self.fun.setdefault('sqrt', z3.Function('sqrt_', z3.RealSort(), z3.RealSort()))
            p = self.conv(A[0]); s = f(p)
            self.side[t] = [s >= 0, z3.Implies(p >= 0, s * s == p)]
            return s
        if o == 'abs':
            x = self.conv(A[0]); return z3.If(x < 0, -x, x)
        if o == 'max':
            x, y = self.conv(A[0]), self.conv(A[1]); return z3.If(x < y, y, x)
        if o == 'ite': return z3.If(self.conv(A[0]), self.conv(A[1]), self.conv(A[2]))
        if o in ('sum', 'maxred'):
            # opaque: a function of its free variables
            vs = sorted(fv(t))
            body = t
            k = 'B%s%d' % (o, t.id)
            return z3.Const(k, z3.RealSort())
        if o == 'eq' or o == 'iff': return self.conv(A[0]) == self.conv(A[1])
        if o == 'lt': return self.conv(A[0]) < self.conv(A[1])
        if o == 'le': return self.conv(A[0]) <= self.conv(A[1])
        if o == 'not': return z3.Not(self.conv(A[0]))
        if o == 'and': return z3.And(*[self.conv(a) for a in A])
        if o == 'or': return z3.Or(*[self.conv(a) for a in A])
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'all':
            return z3.ForAll([self.conv(A[0])], self.conv(A[1]))
        raise ValueError('z3 conv ' + o)
    def sides(self, ts):
        out = []
        for t in ts:
            for s in atoms_of(t, ('sqrt',)):
                self.conv(s); out.extend(self.side[s])
        return out

class Result:
    def __init__(self, st, how='', model=None, goal=None):
        self.st = st; self.how = how; self.model = model; self.goal = goal
    def __bool__(self): return self.st == 'proved'
    def __repr__(self): return 'Result(%s,%s)' % (self.st, self.how)

class Prover:
    def __init__(self, timeout_ms=10000):
        self.z = ToZ3()
        self.timeout = timeout_ms
        self.cache = {}
        self.solver_time = 0.0
        self.nq = 0
        self.by = {}
        self._inc = {}
    # -------------------------------------------------- raw z3
    def check(self, hyps, neg_goal, timeout=None, want_model=False):
        """sat-check of hyps /\\ neg_goal -> 'unsat' | 'sat' | 'unknown'"""
        key = (frozenset(hyps), neg_goal)
        if key in self.cache and not want_model: return self.cache[key]
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        allt = list(hyps) + [neg_goal]
        zs = [self.z.conv(h) for h in allt]
        for f in self.z.sides(allt): s.add(f)
        for x in zs: s.add(x)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        self.solver_time += time.time() - t0; self.nq += 1
        self.cache[key] = r
        if want_model:
            m = None
            if r == 'sat':
                try: m = str(s.model())[:4000]
                except z3.Z3Exception: m = None
            return r, m
        return r
    def relevant(self, hyps, goal):
        """cone of influence on free variables/function names (sound: dropping hyps only weakens)"""
        def syms(t):
            s = set(fv(t))
            for a in atoms_of(t, ('app',)): s.add(a.args[0])
            return s
        g = syms(goal); rest = [(h, syms(h)) for h in hyps]; out = []
        ch = True
        while ch:
            ch = False
            for hs in list(rest):
                if not hs[1] or hs[1] & g:
                    out.append(hs[0]); g |= hs[1]; rest.remove(hs); ch = True
        return out
    def valid(self, hyps, goal, timeout=3000):
        """quick internal query: True iff proved"""
        if goal is TRUE: return True
        if goal in hyps: return True
        if goal is FALSE and not hyps: return False
        h = [x for x in hyps if x is not TRUE]
        # int/bool-only fast path: drop hyps with reals when goal is integer
        if goal is not FALSE and not _has_real(goal):
            h = [x for x in h if not _has_real(x)]
        return self.check(h, not_(goal), timeout) == 'unsat'
    def decide(self, hyps, c, timeout=1000):
        """True/False/None"""
        if c is TRUE: return True
        if c is FALSE: return False
        if self.valid(hyps, c, timeout): return True
        if self.valid(hyps, not_(c), timeout): return False
        return None
    # -------------------------------------------------- full proof
    def maxfacts(self, hyps, goal):
        """instances of the definition of a maximum over a range: an upper bound at the index terms in sight, attained"""
        ms = set(atoms_of(goal, ('maxred',)))
        for h in hyps: ms |= set(atoms_of(h, ('maxred',)))
        ms = [m for m in ms if m not in self._mf]
        if not ms: return []
        out = []
        idx = set()
        for t in [goal] + list(hyps):
            for a in atoms_of(t, ('app',)):
                for x in a.args[1:]:
                    if isinstance(x, T) and x.sort == 'I' and not any(v.args[0].startswith('#') for v in fv(x) if isinstance(v.args[0], str)): idx.add(x)
        for m in ms:
            v, lo, hi, body = mparts(m)
            w = fresh('mx', 'I')
            M = atom(m)
            for e in list(idx)[:12] + [lo, sub(hi, I(1))]:
                out.append(implies(and_(le(lo, e), lt(e, hi)), le(body(e), M)))
            out.append(implies(lt(lo, hi), and_(le(lo, w), lt(w, hi), eq(M, body(w)))))
        return out
    _mf = ()
    sum_lemmas = None        # {sum atom: equal term}: instances of "the first term of a sum can be taken out", tried when a goal does not go through as it is
    def prove(self, hyps, goal, depth=0):
        hyps = [h for h in hyps if h is not TRUE]
        if depth == 0 and self.sum_lemmas:
            lm, self.sum_lemmas = self.sum_lemmas, None
            try:
                r = self.prove(hyps, goal, 0)
                if not r:
                    from .loops import subst_nodes
                    g2 = subst_nodes(goal, lm)
                    if g2 is not goal:
                        r2 = self.prove([subst_nodes(h, lm) for h in hyps], g2, 0)
                        if r2: return Result('proved', 'sum-lemma+' + r2.how)
                return r
            finally: self.sum_lemmas = lm
        if depth == 0 and goal is not TRUE:
            mf = self.maxfacts(hyps, goal)
            if mf:
                hyps = hyps + mf
                self._mf = set(self._mf) | set(atoms_of(goal, ('maxred',)))
                try: return self.prove(hyps, goal, 1)
                finally: self._mf = ()
        if goal is TRUE: return Result('proved', 'normaliser')
        if goal in hyps: return Result('proved', 'hypothesis')
        if goal.op == 'and':
            how = set()
            for g in goal.args:
                r = self.prove(hyps, g, depth)
                if not r: return r
                how.add(r.how)
            return Result('proved', '+'.join(sorted(how)))
        if goal.op == 'all':
            v = fresh('k', 'I')
            return self.prove(hyps, subst(goal.args[1], {goal.args[0]: v}), depth)
        if goal.op == 'or':
            # assume the negation of all but the last real-equality disjunct
            eqs = [g for g in goal.args if g.op in ('eq', 'and', 'all')]
            if eqs:
                g = eqs[-1]
                return self.prove(list(hyps) + [not_(x) for x in goal.args if x is not g], g, depth)
        if goal.op == 'eq' and goal.args[0].sort == 'R':
            return self.prove_eq(hyps, sub(goal.args[0], goal.args[1]), depth)
        r, m = self.check(hyps, not_(goal), want_model=True)
        if r == 'unsat': return Result('proved', 'z3')
        return Result('refuted' if r == 'sat' else 'unknown', 'z3', m, goal)
    def prove_eq(self, hyps, d, depth=0):
        """hyps |- d == 0 for a Real polynomial d"""
        if cval(d) == 0: return Result('proved', 'normaliser')
        if depth > 60: return Result('unknown', 'depth', None, eq(d, R(0)))
        d2 = self.simp(d, hyps)
        if d2 is not d: return self.prove_eq(hyps, d2, depth + 1)
        # a factor common to all monomials, known nonzero, can go: skip (not needed)
        conds = [a.args[0] for a in top_ites(d)]
        if conds:
            c = conds[0]
            rs = []
            for cc, val in ((c, True), (not_(c), False)):
                h2 = list(hyps) + [cc]
                if not_(cc) in hyps: continue
                if self.check([x for x in h2 if not _has_real(x)] if not _has_real(cc) else h2, TRUE, 2000 if _lin(cc) else 250) == 'unsat': continue
                e = replace_cond(d, c, val)
                e, h2 = self.use_eq(e, h2, cc)
                r = self.prove_eq(h2, e, depth + 1)
                if not r: return r
                rs.append(r.how)
            return Result('proved', 'case-split+' + '+'.join(sorted(set(rs))) if rs else 'z3')
        sums = [(m, c) for m, c in d.args[0] if any(a.op == 'sum' for a, e in m)]
        if sums:
            r = self.prove_sums(hyps, d, depth)
            if r is not None: return r
        r, m = self.check(hyps, ne(d, R(0)), want_model=True)
        if r == 'unsat': return Result('proved', 'z3')
        if r == 'unknown':
            rr = self.cvc5(hyps, ne(d, R(0)))
            if rr == 'unsat': return Result('proved', 'cvc5')
            if self.nonzero_poly(hyps, d): r = 'sat'
        return Result('refuted' if r == 'sat' else 'unknown', 'z3', m, eq(d, R(0)))
    def nonzero_poly(self, hyps, d):
        """sampling refutation for pure polynomials over free atoms when there are no real hypotheses"""
        return False
    def cvc5(self, hyps, ng):
        return 'unknown'
    def use_eq(self, d, hyps, c):
        """if c is  v == t  for a variable v, substitute"""
        if c.op == 'eq' and c.args[0].sort == 'I':
            p = c.args[0]
            for m, k in p.args[0]:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and abs(k) == 1:
                    v = m[0][0]
                    rest = scale(sub(p, scale(atom(v), k)), -1 / k)
                    if v in fv(rest): continue
                    mp = {v: rest}
                    return subst(d, mp), [subst(h, mp) for h in hyps]
        return d, hyps
    def simp(self, d, hyps):
        """resolve ite conditions decided by the integer hypotheses"""
        for a in top_ites(d):
            c = a.args[0]
            if _has_real(c):
                v = True if c in hyps else False if not_(c) in hyps else None
            else:
                v = self.decide(hyps, c)
            if v is not None: return replace_cond(d, c, v)
        return d
    def prove_sums(self, hyps, d, depth):
        groups = []     # (lo, hi, [(coef, body-with-binder)])
        rest = {}
        for m, c in d.args[0]:
            ss = [(a, e) for a, e in m if a.op == 'sum']
            if not ss:
                rest[m] = c; continue
            if len(ss) != 1 or ss[0][1] != 1: return None
            s = ss[0][0]
            coef = mk('poly', (((tuple(x for x in m if x[0] is not s), c),),), 'R')
            s2 = self.flatten(hyps, s)
            lo, hi = s2.args[0], s2.args[1]
            for g in groups:
                if g[0] is lo and g[1] is hi or (self.valid(hyps, eq(g[0], lo)) and self.valid(hyps, eq(g[1], hi))):
                    g[2].append((coef, s2)); break
            else:
                groups.append((lo, hi, [(coef, s2)]))
        rp = tm._poly(rest, 'R')
        hows = set()
        # a sum over a provably empty range vanishes
        r0 = self.prove_eq(hyps, rp, depth + 1)
        if not r0:
            return self.try_split(hyps, groups, rp, depth) or r0
        for lo, hi, parts in groups:
            j = fresh('j', 'I')
            body = R(0)
            for coef, s in parts:
                body = add(body, mul(coef, subst(s.args[3], {s.args[2]: j})))
            r = self.prove_eq(list(hyps) + [le(lo, j), lt(j, hi)], body, depth + 1)
            if not r: return self.try_split(hyps, groups, rp, depth) or r
            hows.add(r.how)
        return Result('proved', 'sum-congruence+' + '+'.join(sorted(hows)))
    def try_split(self, hyps, groups, rest, depth):
        """[lo,hi) + [hi,hi2) = [lo,hi2);  [lo,hi+1) = [lo,hi) + body(hi)"""
        if len(groups) < 2 and cval(rest) == 0: return None
        if depth > 20: return None
        # collect all end points, order them with the prover, split every sum at every point
        pts = []
        for lo, hi, _ in groups:
            for x in (lo, hi):
                if not any(y is x or self.valid(hyps, eq(x, y)) for y in pts): pts.append(x)
        # singletons: hi = lo + 1
        def leq(a, b): return self.valid(hyps, le(a, b))
        import functools
        for a in pts:
            for b in pts:
                if not leq(a, b) and not leq(b, a): return None
        pts.sort(key=functools.cmp_to_key(lambda a, b: 0 if a is b else (-1 if leq(a, b) else 1)))
        segs = {}
        for lo, hi, parts in groups:
            if not leq(lo, hi): return None
            for k in range(len(pts) - 1):
                a, b = pts[k], pts[k + 1]
                if leq(lo, a) and leq(b, hi):
                    segs.setdefault(k, []).extend(parts)
        tot = rest; hows = set()
        for k, parts in segs.items():
            a, b = pts[k], pts[k + 1]
            w = cval(sub(b, a))
            if w is None and self.valid(hyps, eq(sub(b, a), I(1))): w = 1
            if w is not None and w <= 4:
                for o in range(int(w)):
                    for coef, s in parts:
                        tot = add(tot, mul(coef, subst(s.args[3], {s.args[2]: add(a, I(o))})))
            else:
                j = fresh('j', 'I'); body = R(0)
                for coef, s in parts:
                    body = add(body, mul(coef, subst(s.args[3], {s.args[2]: j})))
                r = self.prove_eq(list(hyps) + [le(a, j), lt(j, b)], body, depth + 10)
                if not r: return r
                hows.add(r.how)
        r = self.prove_eq(hyps, tot, depth + 10)
        if not r: return r
        return Result('proved', 'sum-split+' + '+'.join(sorted(hows | {r.how})))
    def flatten(self, hyps, s):
        """sum_{q<Q} sum_{b<B} g  ->  sum_{j<Q*B} g[q:=j div B, b:=j mod B]   (B constant)"""
        lo, hi, bv, body = s.args
        if cval(lo) != 0: return s
        it = body.args[0]
        inner = [a for m, c in it for a, e in m if a.op == 'sum']
        if not inner: return s
        if any(sum(1 for a, e in m if a.op == 'sum') != 1 for m, c in it): return s
        Bs = {cval(a.args[1]) for a in inner}
        if len(Bs) != 1 or None in Bs or any(cval(a.args[0]) != 0 for a in inner): return s
        B = Bs.pop()
        if B < 1: return s
        j = fresh('j', 'I')
        q = idiv(j, I(B)); b = imod(j, I(B))
        tot = R(0)
        for m, c in it:
            a = [x for x, e in m if x.op == 'sum'][0]
            coef = mk('poly', (((tuple(x for x in m if x[0] is not a), c),),), 'R')
            tot = add(tot, mul(coef, subst(a.args[3], {a.args[2]: b})))
        tot = subst(tot, {bv: q})
        n = scale(hi, B)
        return as_atom(sum_(j, I(0), n, tot))

def mparts(m):
    lo, hi, bv, body = m.args
    return bv, lo, hi, (lambda e: subst(body, {bv: e}))

def _lin(t):
    from .symex import linear
    return linear(t)

def _has_real(t, _memo={}):
    r = _memo.get(t)
    if r is None:
        if t.sort == 'R': r = True
        elif t.op == 'app' and t.sort != 'B': r = False if t.sort == 'I' and not any(isinstance(a, T) and _has_real(a) for a in t.args) else True
        else: r = any(_has_real(c) for c in children(t))
        _memo[t] = r
    return r

def top_ites(t):
    """ite atoms not under a binder, outermost conditions without nested ite first"""
    out = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'ite': out.append(x)
        if x.op in ('sum', 'maxred', 'all'): continue
        st.extend(children(x))
    def size(a): return len(atoms_of(a.args[0], ('ite',)))
    out.sort(key=lambda a: (size(a), a.id))
    return out

def replace_cond(t, c, val, memo=None):
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    nc = not_(c)
    if t is c: r = B(val)
    elif t is nc: r = B(not val)
    elif t.op == 'poly':
        r = const(0, t.sort)
        for m, k in t.args[0]:
            u = const(k, t.sort)
            for a, e in m:
                s = replace_cond(a, c, val, memo)
                if e < 0: s = recip(s); e = -e
                for _ in range(e): u = mul(u, s)
            r = add(r, u)
    elif t.op == 'var' or not t.args: r = atom(t) if t.sort in 'IR' else t
    elif t.op in ('sum', 'maxred', 'all'):
        r = atom(t) if t.sort in 'IR' else t
        if t.op == 'sum':
            # the condition does not mention the bound variable (canonical binder), safe to push in
            if t.args[2] not in fv(c):
                b2 = replace_cond(t.args[3], c, val, memo)
                r = rebuild(t, [t.args[0], t.args[1], t.args[2], b2])
    else:
        na = [replace_cond(a, c, val, memo) if isinstance(a, T) else a for a in t.args]
        r = rebuild(t, na)
    memo[t] = r
    return r
