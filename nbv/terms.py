"""Hash-consed term algebra used by the VC generator.

Int ('I') and Real ('R') terms are kept as canonical polynomials over atoms
(Laurent polynomials for Real), Bool terms as and/or/not/compare trees.
"""
from fractions import Fraction
import itertools

_tab = {}
_ids = itertools.count(1)

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'depth', '_fv', '__weakref__')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.id = next(_ids); t._fv = None
        d = 0
        for a in args:
            if isinstance(a, T):
                if a.depth > d: d = a.depth
            elif op == 'poly':
                break
        if op == 'poly':
            for mono, c in args[0]:
                for a, e in mono:
                    if a.depth > d: d = a.depth
        if op in ('sum', 'maxred', 'all', 'ex'): d += 1
        t.depth = d
        _tab[key] = t
    return t

# ------------------------------------------------------------------ polynomials
def _poly(d, sort):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda x: tuple((a.id, e) for a, e in x[0])))
    return mk('poly', (items,), sort)

def const(v, sort):
    v = Fraction(v)
    return _poly({(): v}, sort)

def I(v): return v if isinstance(v, T) else const(v, 'I')
def R(v): return v if isinstance(v, T) else const(v, 'R')

def atom(a):
    """wrap an I/R atom node into a polynomial"""
    return mk('poly', ((((((a, 1),)), Fraction(1)),),), a.sort)

def items(p): return p.args[0]
def is_poly(p): return isinstance(p, T) and p.op == 'poly'

def cval(p):
    """constant value of a polynomial or None"""
    if not is_poly(p): return None
    it = p.args[0]
    if not it: return Fraction(0)
    if len(it) == 1 and it[0][0] == (): return it[0][1]
    return None

def as_atom(p):
    it = p.args[0]
    if len(it) == 1 and it[0][1] == 1 and len(it[0][0]) == 1 and it[0][0][0][1] == 1:
        return it[0][0][0][0]
    return None

def coerce(a, b):
    if not isinstance(a, T): a = const(a, b.sort)
    if not isinstance(b, T): b = const(b, a.sort)
    if a.sort != b.sort: raise TypeError('sort mismatch %s %s: %s / %s' % (a.sort, b.sort, a, b))
    return a, b

def add(a, b):
    a, b = coerce(a, b)
    if not a.args[0]: return b
    if not b.args[0]: return a
    d = dict(a.args[0])
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + c
    return _norm_divmod(d, a.sort)

def neg(a):
    return mk('poly', (tuple((m, -c) for m, c in a.args[0]),), a.sort)

def sub(a, b):
    a, b = coerce(a, b)
    return add(a, neg(b))

def scale(a, k):
    k = Fraction(k)
    if k == 0: return const(0, a.sort)
    return mk('poly', (tuple((m, c * k) for m, c in a.args[0]),), a.sort)

def _monomul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))

class TooBig(Exception): pass
LIMIT = 20000

def mul(a, b):
    a, b = coerce(a, b)
    ka = cval(a)
    if ka is not None: return scale(b, ka)
    kb = cval(b)
    if kb is not None: return scale(a, kb)
    if len(a.args[0]) * len(b.args[0]) > LIMIT: raise TooBig()
    d = {}
    fix = False
    for m, c in a.args[0]:
        for n, k in b.args[0]:
            mn = _monomul(m, n)
            if a.sort == 'R':
                for x, e in mn:
                    if x.op == 'sqrt' and (e >= 2 or e < 0) or x.op == 'inv' and e < 0:
                        fix = True
            d[mn] = d.get(mn, 0) + c * k
    if fix:
        r = const(0, 'R')
        for mn, c in d.items():
            if c != 0: r = add(r, _fixmono(mn, c))
        return r
    return _norm_divmod(d, a.sort)

def _fixmono(mn, c):
    """rewrite sqrt(p)^e -> sqrt(p)^(e mod 2) * p^(e div 2);  inv(p)^-e -> p^e"""
    rest = []; extra = []
    for a, e in mn:
        if a.op == 'sqrt':
            q, r = divmod(e, 2)
            if r: rest.append((a, 1))
            if q: extra.append((a.args[0], q))
        elif a.op == 'inv' and e < 0:
            extra.append((a.args[0], -e))
        else:
            rest.append((a, e))
    t = mk('poly', (((tuple(rest), c),),), 'R')
    for p, q in extra:
        if q > 0:
            for _ in range(q): t = mul(t, p)
        else:
            ip = recip(p)
            for _ in range(-q): t = mul(t, ip)
    return t

def recip(p):
    k = cval(p)
    if k is not None:
        if k == 0: return atom(mk('inv0', (), 'R'))
        return const(1 / k, 'R')
    it = p.args[0]
    if len(it) == 1:
        m, c = it[0]
        mm = tuple((a, -e) for a, e in m)
        if any(a.op in ('sqrt', 'inv') for a, e in m):
            return _fixmono(mm, 1 / c)
        return mk('poly', (((mm, 1 / c),),), 'R')
    c = it[0][1]
    q = scale(p, 1 / c)
    return scale(atom(mk('inv', (q,), 'R')), 1 / c)

def div(a, b):
    a, b = coerce(a, b)
    return mul(a, recip(b))

def _norm_divmod(d, sort):
    """canonicalise  c*n*div(x,n) + c*mod(x,n)  ->  c*x   (x, n arbitrary, n constant)"""
    if sort == 'I':
        for m in list(d):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mod' and d.get(m, 0) != 0:
                x, n = m[0][0].args
                dm = ((mk('div', (x, n), 'I'), 1),)
                kn = cval(n)
                if kn is not None and dm in d:
                    c = d[m]
                    if d[dm] == c * kn:
                        d = dict(d); d[m] = 0; d[dm] = 0
                        return add(_poly(d, 'I'), scale(x, c))
    return _poly(d, sort)

def idiv(a, n):
    """floor division (a >= 0, n > 0)"""
    a, n = coerce(a, n)
    kn = cval(n)
    if kn == 1: return a
    ka = cval(a)
    if ka is not None and kn: return const(ka // kn, 'I')
    if kn:
        # split off the part divisible by n
        q = {}; r = {}
        for m, c in a.args[0]:
            if c % kn == 0: q[m] = c / kn
            else: r[m] = c
        if not r: return _poly(q, 'I')
        rp = _poly(r, 'I')
        kr = cval(rp)
        if q:
            if kr is not None: return add(_poly(q, 'I'), const(kr // kn, 'I'))
            # mod atom with same modulus has div 0
            ra = as_atom(rp)
            if ra is not None and ra.op == 'mod' and ra.args[1] is n: return _poly(q, 'I')
            return add(_poly(q, 'I'), atom(mk('div', (rp, n), 'I')))
        ra = as_atom(rp)
        if ra is not None and ra.op == 'mod' and ra.args[1] is n: return const(0, 'I')
        return atom(mk('div', (rp, n), 'I'))
    return atom(mk('div', (a, n), 'I'))

def imod(a, n):
    a, n = coerce(a, n)
    kn = cval(n); ka = cval(a)
    if kn == 1: return const(0, 'I')
    if ka is not None and kn: return const(ka % kn, 'I')
    if kn:
        r = {m: c % kn for m, c in a.args[0] if c % kn != 0}
        rp = _poly(r, 'I')
        kr = cval(rp)
        if kr is not None: return const(kr % kn, 'I')
        ra = as_atom(rp)
        if ra is not None and ra.op == 'mod' and ra.args[1] is n: return rp
        return atom(mk('mod', (rp, n), 'I'))
    return atom(mk('mod', (a, n), 'I'))

def to_real(a):
    """Int -> Real"""
    k = cval(a)
    if k is not None: return const(k, 'R')
    r = const(0, 'R')
    for m, c in a.args[0]:
        t = const(c, 'R')
        for x, e in m:
            y = atom(mk('i2r', (x,), 'R'))
            for _ in range(e): t = mul(t, y)
        r = add(r, t)
    return r

def sqrt(p):
    k = cval(p)
    if k is not None and k >= 0:
        from math import isqrt
        a, b = isqrt(k.numerator), isqrt(k.denominator)
        if a * a == k.numerator and b * b == k.denominator: return const(Fraction(a, b), 'R')
    return atom(mk('sqrt', (p,), 'R'))

# ------------------------------------------------------------------ variables, functions
_fresh = itertools.count(1)
def var(name, sort):
    v = mk('var', (name,), sort)
    return atom(v) if sort in 'IR' else v
def fresh(name, sort):
    return var('%s!%d' % (name, next(_fresh)), sort)

def flneg(a):
    t = as_atom(a)
    if cval(a) is not None: return neg(a)
    if t is not None and t.op == 'app' and t.args[0] == 'flneg': return t.args[1]
    if t is not None and t.op == 'app' and t.args[0] == 'fl+': return app('fl+', [flneg(t.args[1]), flneg(t.args[2])], 'R')
    if t is not None and t.op == 'app' and t.args[0] in ('fl*', 'fl/'): return app(t.args[0], [flneg(t.args[1]), t.args[2]], 'R')
    return atom(mk('app', ('flneg', a), 'R'))

def app(f, args, sort):
    if isinstance(f, str) and f.startswith('fl') and f in ('fl+', 'fl-', 'fl*', 'fl/', 'flneg'):
        # bit-exact floating point: only identities that hold for IEEE round-to-nearest (up to the sign of a zero)
        if f == 'flneg': return flneg(args[0])
        a, b = args
        if f == 'fl-': f = 'fl+'; b = flneg(b)
        if f in ('fl*', 'fl/'):
            ng = False
            for q in (0, 1):
                t = as_atom((a, b)[q])
                c = cval((a, b)[q])
                if t is not None and t.op == 'app' and t.args[0] == 'flneg':
                    ng = not ng
                    if q == 0: a = t.args[1]
                    else: b = t.args[1]
                elif c is not None and c < 0:
                    ng = not ng
                    if q == 0: a = neg(a)
                    else: b = neg(b)
            if f == 'fl*' and b.id < a.id: a, b = b, a
            r = atom(mk('app', (f, a, b), 'R'))
            return atom(mk('app', ('flneg', r), 'R')) if ng else r
        if b.id < a.id: a, b = b, a
        return atom(mk('app', (f, a, b), 'R'))
    t = mk('app', (f,) + tuple(args), sort)
    return atom(t) if sort in 'IR' else t

# ------------------------------------------------------------------ booleans
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')
def B(x): return x if isinstance(x, T) else (TRUE if x else FALSE)

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'lt': return le(a.args[1], a.args[0])
    if a.op == 'le': return lt(a.args[1], a.args[0])
    return mk('not', (a,), 'B')

def and_(*xs):
    out = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y is TRUE or y in seen: continue
            if y is FALSE: return FALSE
            seen.add(y); out.append(y)
    for y in out:
        if not_(y) in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', tuple(sorted(out)), 'B')

def or_(*xs):
    out = []; seen = set()
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y is FALSE or y in seen: continue
            if y is TRUE: return TRUE
            seen.add(y); out.append(y)
    for y in out:
        if not_(y) in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk('or', tuple(sorted(out)), 'B')

def implies(a, b): return or_(not_(a), b)

def _normcmp(a, b):
    a, b = coerce(a, b)
    d = sub(a, b)
    return d

def eq(a, b):
    if isinstance(a, T) and a.sort == 'B':
        b = B(b)
        if a is b: return TRUE
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return mk('iff', tuple(sorted((a, b))), 'B')
    if isinstance(b, T) and b.sort == 'B': return eq(b, a)
    a, b = coerce(a, b)
    if a.sort not in 'IR':
        if a is b: return TRUE
        return mk('eq', tuple(sorted((a, b))), 'B')
    if a is b: return TRUE
    d = sub(a, b)
    k = cval(d)
    if k is not None: return TRUE if k == 0 else FALSE
    # canonical sign/scale
    c = d.args[0][0][1]
    d = scale(d, 1 / c)
    if a.sort == 'I':
        den = 1
        for m, q in d.args[0]:
            den = den * q.denominator // __import__('math').gcd(den, q.denominator)
        d = scale(d, den)
    # split constant to the right for readability
    return mk('eq', (d, const(0, a.sort)), 'B')

def lt(a, b):
    a, b = coerce(a, b)
    d = sub(a, b)
    k = cval(d)
    if k is not None: return B(k < 0)
    d = _possplit(d)
    return mk('lt', d, 'B')
def le(a, b):
    a, b = coerce(a, b)
    if a.sort == 'I':
        return lt(a, add(b, const(1, 'I')))
    d = sub(a, b)
    k = cval(d)
    if k is not None: return B(k <= 0)
    return mk('le', _possplit(d), 'B')
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def ne(a, b): return not_(eq(a, b))

def _possplit(d):
    l = {}; r = {}
    for m, c in d.args[0]:
        if c > 0: l[m] = c
        else: r[m] = -c
    return (_poly(l, d.sort), _poly(r, d.sort))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, T) and a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    a, b = coerce(a, b)
    if a is b: return a
    if c.op == 'not': c, a, b = c.args[0], b, a
    # canonical orientation of comparisons: ite(x<=y,..) -> ite(y<x, swapped)
    if c.op == 'le' : c, a, b = not_(c), b, a
    if a.sort in 'IR':
        aa = as_atom(a)
        if aa is not None and aa.op == 'ite' and aa.args[0] is c: a = aa.args[1]
        bb = as_atom(b)
        if bb is not None and bb.op == 'ite' and bb.args[0] is c: b = bb.args[2]
        if a is b: return a
        return atom(mk('ite', (c, a, b), a.sort))
    return mk('ite', (c, a, b), a.sort)

def fabs(x):
    k = cval(x)
    if k is not None: return const(abs(k), 'R')
    # canonical sign: |x| = |-x|
    if x.args[0][0][1] < 0: x = neg(x)
    return atom(mk('abs', (x,), 'R'))

def fmax(a, b):
    if a is b: return a
    return atom(mk('max', tuple(sorted((a, b))), 'R'))

# ------------------------------------------------------------------ binders
def _bind(op, v, lo, hi, body, sort):
    va = as_atom(v)
    d = body.depth
    bv = var('#%d' % d, 'I')
    body = subst(body, {va: bv})
    return mk(op, (lo, hi, as_atom(bv), body), sort)

def sum_(v, lo, hi, body):
    """sum of body for v in [lo,hi)"""
    lo, hi = I(lo), I(hi)
    if body.args[0] == (): return const(0, 'R')
    if lo is hi: return const(0, 'R')
    va = as_atom(v)
    if len(body.args[0]) == 1:
        m, c0 = body.args[0][0]
        for a, e in m:
            if a.op == 'ite' and e == 1:
                cnd, x, y = a.args
                rest = mk('poly', (((tuple(q for q in m if q[0] is not a), c0),),), 'R')
                if va not in fv(cnd):
                    return ite(cnd, sum_(v, lo, hi, mul(rest, x)), sum_(v, lo, hi, mul(rest, y)))
                if cnd.op == 'eq' and cnd.args[0].sort == 'I' and y.args[0] == ():
                    ev = _solve1(cnd.args[0], va)
                    if ev is not None:
                        return ite(and_(le(lo, ev), lt(ev, hi)), subst(mul(rest, x), {va: ev}), const(0, 'R'))
    # linearity: pull the sum through the polynomial's outermost additive structure is NOT done here;
    # sums stay whole so that alpha-equivalent bodies are identical.
    return atom(_bind('sum', v, lo, hi, body, 'R'))

def _solve1(p, v):
    k = None; rest = {}
    for m, c in p.args[0]:
        if m == ((v, 1),): k = c
        elif any(v in fv(x) for x, e in m): return None
        else: rest[m] = c
    if not k: return None
    r = {m: -c / k for m, c in rest.items()}
    if any(c.denominator != 1 for c in r.values()): return None
    return _poly(r, 'I')

def maxred(v, lo, hi, body):
    return atom(_bind('maxred', v, I(lo), I(hi), body, 'R'))

def forall(v, cond, body):
    """forall v (Int): cond -> body"""
    b = implies(cond, body)
    if b is TRUE: return TRUE
    va = as_atom(v)
    if va not in fv(b): return b
    d = b.depth
    bv = var('#%d' % d, 'I')
    return mk('all', (as_atom(bv), subst(b, {va: bv})), 'B')

# ------------------------------------------------------------------ traversal
def children(t):
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m: yield a
    else:
        for a in t.args:
            if isinstance(a, T): yield a

def fv(t):
    """free atoms of op var (frozenset)"""
    if t._fv is None:
        if t.op == 'var': t._fv = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t): s |= fv(c)
            if t.op == 'sum' or t.op == 'maxred': s -= {t.args[2]}
            elif t.op == 'all': s -= {t.args[0]}
            t._fv = s
    return t._fv

def atoms_of(t, op, acc=None, seen=None):
    """all sub-nodes with the given op(s)"""
    if acc is None: acc = []; seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in op: acc.append(x)
        st.extend(children(x))
    return acc

def subst(t, mp, memo=None):
    """mp: atom -> polynomial / term"""
    if memo is None: memo = {}
    return _subst(t, mp, memo, frozenset(mp))

def _subst(t, mp, memo, keys):
    if not (fv(t) & keys) and not any(k.op != 'var' for k in keys): return t
    r = memo.get(t)
    if r is not None: return r
    if t in mp:
        r = mp[t]
    elif t.op == 'poly':
        r = const(0, t.sort)
        for m, c in t.args[0]:
            u = const(c, t.sort)
            for a, e in m:
                s = _subst_atom(a, mp, memo, keys)
                if e < 0:
                    s = recip(s); e = -e
                for _ in range(e): u = mul(u, s)
            r = add(r, u)
    else:
        r = _subst_atom(t, mp, memo, keys)
    memo[t] = r
    return r

def _subst_atom(a, mp, memo, keys):
    """returns polynomial for I/R atoms, term otherwise"""
    if a in mp: return mp[a]
    na = [(_subst(x, mp, memo, keys) if isinstance(x, T) and not (a.op in ('sum', 'maxred') and i == 2) and not (a.op == 'all' and i == 0) else x)
          for i, x in enumerate(a.args)]
    return rebuild(a, na)

def rebuild(a, na):
    op = a.op
    if op == 'var': return atom(a) if a.sort in 'IR' else a
    if op == 'div': return idiv(na[0], na[1])
    if op == 'mod': return imod(na[0], na[1])
    if op == 'inv': return recip(na[0])
    if op == 'inv0': return atom(a)
    if op == 'sqrt': return sqrt(na[0])
    if op == 'abs': return fabs(na[0])
    if op == 'max': return fmax(na[0], na[1])
    if op == 'i2r': 
        x = na[0]
        return to_real(x if x.op == 'poly' else atom(x))
    if op == 'ite': return ite(na[0], na[1], na[2])
    if op in ('sum', 'maxred'):
        # capture check: canonical bound names have depth index; rename if needed
        lo, hi, bv, body = na
        d = body.depth
        nb = var('#%d' % d, 'I')
        if as_atom(nb) is not bv: body = subst(body, {bv: nb})
        if op == 'sum' and lo is hi: return const(0, 'R')
        if op == 'sum':
            w = fresh('s', 'I')
            return sum_(w, lo, hi, subst(body, {as_atom(nb): w}))
        return atom(mk(op, (lo, hi, as_atom(nb), body), 'R'))
    if op == 'all':
        bv, body = na
        d = body.depth
        nb = var('#%d' % d, 'I')
        if as_atom(nb) is not bv: body = subst(body, {bv: nb})
        if body is TRUE: return TRUE
        return mk('all', (as_atom(nb), body), 'B')
    if op == 'eq': return eq(na[0], na[1])
    if op == 'lt': return lt(na[0], na[1])
    if op == 'le': return le(na[0], na[1])
    if op == 'not': return not_(na[0])
    if op == 'and': return and_(*na)
    if op == 'or': return or_(*na)
    if op == 'iff': return eq(na[0], na[1])
    if op == 'app':
        if isinstance(na[0], str) and na[0].startswith('fl'): return app(na[0], na[1:], a.sort)
        r = mk('app', tuple(na), a.sort)
        if a.sort in 'IR': return atom(r)
        return r
    if op in ('true', 'false'): return a
    raise TypeError('rebuild ' + op)

# ------------------------------------------------------------------ printing
def show(t, lim=400):
    s = _show(t, 0)
    return s if len(s) <= lim else s[:lim] + '...'
def _show(t, d):
    if d > 12: return '..'
    if not isinstance(t, T): return str(t)
    o = t.op
    if o == 'poly':
        if not t.args[0]: return '0'
        out = []
        for m, c in t.args[0][:12]:
            fs = []
            for a, e in m: fs.append(_show(a, d+1) + ('' if e == 1 else '^%d' % e))
            cs = str(c) if c.denominator == 1 or len(str(c)) < 14 else repr(float(c))
            if not fs: out.append(cs)
            else: out.append(('' if c == 1 else '-' if c == -1 else cs + '*') + '*'.join(fs))
        if len(t.args[0]) > 12: out.append('...')
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if o == 'var': return t.args[0]
    if o == 'app': return '%s(%s)' % (t.args[0], ','.join(_show(a, d+1) for a in t.args[1:]))
    if o in ('sum', 'maxred'): return '%s[%s:%s..%s](%s)' % (o, _show(t.args[2], d+1), _show(t.args[0], d+1), _show(t.args[1], d+1), _show(t.args[3], d+1))
    return '%s(%s)' % (o, ','.join(_show(a, d+1) for a in t.args))
