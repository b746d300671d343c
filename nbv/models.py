"""Assumed contracts of the C/C++ runtime, libstdc++, OpenMP runtime and Qt (trusted)."""
import re
from .symex import *
from .symex import _read
from . import terms as tm

MODELS = []
def model(rx):
    def d(fn):
        MODELS.append((re.compile(rx), fn)); return fn
    return d

def nop(c): return None

# ---- Qt strings that are literals: an opaque handle remembering the text
def qstr(text): return Ptr(Region('qstr', None, None, {'qstr': text}), 0)
def qtext(c, p):
    v = load(c.cx, c.st, p, PTR) if isinstance(p, Ptr) else None
    return v.r.meta['qstr'] if isinstance(v, Ptr) and 'qstr' in v.r.meta else None
@model(r'^QString::QString\(char const\*\)$')
def m_qstr_lit(c):
    t = const_string(c.cx, c.args[1])
    if t is not None: store(c.cx, c.st, c.args[0], qstr(t), PTR)
    return None
@model(r'^QString::QString\(QString const&\)$')
def m_qstr_copy(c):
    t = qtext(c, c.args[1])
    if t is not None: store(c.cx, c.st, c.args[0], qstr(t), PTR)
    return None
@model(r'^QString::operator==\(char const\*\) const$|^QString::operator!=\(char const\*\) const$|^operator==\(QString const&, char const\*\)$|^operator[=!]=\(QString const&, QString const&\)$')
def m_qstr_eq(c):
    a = qtext(c, c.args[0]); n = c.cx.dem(c.name)
    b = qtext(c, c.args[1]) if 'QString const&, QString' in n else const_string(c.cx, c.args[1])
    if a is None or b is None: raise Unsupported('comparison of strings that are not literals')
    r = (a == b) != ('!=' in n)
    return B(r)

@model(r'^llvm\.lifetime\.(start|end)')
def m_life(c):
    p = c.args[-1]
    if isinstance(p, Ptr) and p.r.meta.get('alloca') and cval(p.o) == 0: c.st.mem.pop(p.r.id, None)
    return None

@model(r'^llvm\.(lifetime|invariant|assume|dbg|experimental\.noalias)|^llvm\.va_')
def m_lifetime(c): return NULL if c.rty.k == 'ptr' else None

@model(r'^llvm\.expect')
def m_expect(c): return c.args[0]

@model(r'^llvm\.(fabs)\.|^fabs[fl]?$')
def m_fabs(c):
    if c.cx.fpmode != 'real': return fp1(c.cx, 'abs', c.args[0])
    return fabs(c.args[0])

@model(r'^(sqrt|sqrtf)$|^llvm\.sqrt')
def m_sqrt(c):
    if c.cx.fpmode != 'real': return fp1(c.cx, 'sqrt', c.args[0])
    return sqrt(c.args[0])

@model(r'^pow$')
def m_pow(c):
    n = cval(c.args[1])
    if n is not None and n.denominator == 1 and 0 <= n <= 16:
        r = R(1)
        for _ in range(int(n)): r = mul(r, c.args[0])
        return r
    b = cval(c.args[0])
    if b is not None and abs(b) == 1 and n is not None and n.denominator == 1: return R(1 if b == 1 or int(n) % 2 == 0 else -1)
    return app('pow', c.args, 'R')

@model(r'^llvm\.fmuladd')
def m_fma(c):
    return add(mul(c.args[0], c.args[1]), c.args[2])

@model(r'^llvm\.u?[ms](ax|in)\.|^llvm\.(umax|umin|smax|smin)')
def m_minmax(c):
    n = c.cx.dem(c.name); a, b = c.args
    bits = c.rty.a
    cn = canon_u if '.u' in n else canon_s
    a = cn(c.cx, c.st, a, bits); b = cn(c.cx, c.st, b, bits)
    if 'max' in n: return ite(lt(a, b), b, a)
    return ite(lt(b, a), b, a)

@model(r'^llvm\.trap|^__cxa_pure_virtual|^std::terminate|^abort$')
def m_trap(c):
    c.cx.oblige('trap', 'unreachable: %s at %s' % (c.cx.dem(c.name), c.where), c.st, FALSE)
    raise Infeasible()

@model(r'^std::__throw_|^qBadAlloc|^__cxa_throw|^qt_assert')
def m_throw(c):
    c.cx.assumptions.add('paths that throw (%s) are not followed' % base_name(c.cx.dem(c.name)))
    raise Infeasible()

# ---------------------------------------------------------------- heap
def new_region(c, size, name='heap'):
    r = Region('%s@%s' % (name, c.where), size, None, {'heap': True})
    return Ptr(r, 0)

@model(r'^malloc$|^operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)')
def m_malloc(c):
    return new_region(c, c.args[0])

@model(r'^calloc$')
def m_calloc(c):
    p = new_region(c, mul(c.args[0], c.args[1]))
    p.r.base = lambda cx, st, off, ty, size: zero_of(ty)
    return p

@model(r'^free$|^operator delete')
def m_free(c):
    p = c.args[0]
    g = c.st.ghost.get('freed')
    if g is not None and isinstance(p, Ptr): c.st.ghost['freed'] = g + (p.r,)
    return None

@model(r'^llvm\.mem(cpy|move)|^mem(cpy|move)$')
def m_memcpy(c):
    copy_mem(c.cx, c.st, c.args[0], c.args[1], c.args[2], c.where)
    return c.args[0] if c.rty.k == 'ptr' else None

def copy_mem(cx, st, dst, src, n, where):
    k = cval(n)
    if k == 0: return
    if isinstance(dst, Opaque) or isinstance(src, Opaque): return
    if isinstance(dst, PIte) or isinstance(src, PIte): raise Unsupported('memcpy through conditional pointer')
    if isinstance(dst, NullT) or isinstance(src, NullT):
        cx.oblige('null', 'memcpy with null at ' + where, st, eq(n, I(0))); return
    for p, w in ((dst, 'w'), (src, 'r')):
        if p.r.size is not None and not cx.mute:
            cx.oblige('bounds', 'memory copy at %s in bounds of %s' % (where, p.r.name), st,
                      and_(ge(p.o, I(0)), le(add(p.o, n), I(p.r.size))))
    if k is not None and k <= 4096 and cval(dst.o) is not None and cval(src.o) is not None and const_cells(st, src.r):
        cells = collect_cells(cx, st, src.r)
        lo = int(cval(src.o)); hi = lo + int(k)
        got = False
        for o, (v, s) in sorted(cells.items()):
            if lo <= o and o + s <= hi:
                for tr in cx.track: tr.append(('w', dst.r, add(dst.o, I(o - lo)), s, st.hyps(), 'memcpy', tyof(v, s)))
                raw_store(cx, st, dst.r, add(dst.o, I(o - lo)), s, v); got = True
        if not got and src.r.base is not None:
            for o in range(0, int(k), 8):
                v = load(cx, st, Ptr(src.r, add(src.o, I(o))), DOUBLE)
                for tr in cx.track: tr.append(('w', dst.r, add(dst.o, I(o)), 8, st.hyps(), 'memcpy', DOUBLE))
                raw_store(cx, st, dst.r, add(dst.o, I(o)), 8, v)
        return
    if k is not None and k <= 256:
        # small fixed-size copy out of an object with known cells, or out of an array
        if cval(src.o) is not None and const_cells(st, src.r):
            lo = int(cval(src.o)); at = lo; part = []
            for o, (v, s_) in sorted(collect_cells(cx, st, src.r).items()):
                if o == at and o + s_ <= lo + k: part.append((o - lo, v, s_)); at = o + s_
            if at == lo + k:
                for o, v, s_ in part: store(cx, st, Ptr(dst.r, add(dst.o, I(o))), v, tyof(v, s_))
                return
        ty = src.r.meta.get('elem') or dst.r.meta.get('elem') or DOUBLE; es = cx.m.sizeof(ty)
        if k % es: raise Unsupported('memcpy of %s bytes' % k)
        vals = [load(cx, st, Ptr(src.r, add(src.o, I(o))), ty) for o in range(0, int(k), es)]
        for i, v in enumerate(vals):
            store(cx, st, Ptr(dst.r, add(dst.o, I(i * es))), v, ty)
        return
    # array copy, element-wise
    ty = src.r.meta.get('elem') or dst.r.meta.get('elem') or DOUBLE
    es = cx.m.sizeof(ty)
    if not (div_ok(n, es)):
        if not cx.pv.valid(st.hyps(), eq(imod(n, I(es)), I(0))): raise Unsupported('memcpy length')
        cnt = idiv(n, I(es))
    else: cnt = exact_div(n, es)
    q = fresh('q', 'I')
    s2 = st.copy(); s2.fact(and_(ge(q, I(0)), lt(q, cnt)))
    snap = log(st, src.r)
    v = _read(cx, s2, src.r, len(snap) - 1, add(src.o, mul(q, I(es))), ty, es)
    for tr in cx.track:
        tr.append(('r', src.r, add(src.o, mul(q, I(es))), es, s2.hyps(), 'memcpy at ' + where, ty))
        tr.append(('w', dst.r, add(dst.o, mul(q, I(es))), es, s2.hyps(), 'memcpy at ' + where, ty))
    st.mem[dst.r.id] = log(st, dst.r) + (('M', ((q, cnt),), add(dst.o, mul(q, I(es))), es, v, TRUE),)

def tyof(v, size):
    if isinstance(v, T):
        if v.sort == 'R': return DOUBLE if size == 8 else FLOAT
        return Ty('int', size * 8)
    return PTR

def const_cells(st, r):
    return all(e[0] == 'C' for e in log(st, r))

def collect_cells(cx, st, r):
    out = {}
    for e in log(st, r):
        for k, (v, s) in e[1].items():
            for o in [o for o, (w, z) in out.items() if o != k and o < k + s and k < o + z]: del out[o]
            out[k] = (v, s)
    if r.meta.get('init'):
        ini = {}
        ex = Exec(cx)
        for o, (v, s, t) in r.meta['init'].items():
            if v[0] in ('cstr',): continue
            if v == ('zero',):
                continue
            ini[o] = (ex.val(t, v, None, st), s)
        ini.update(out); out = ini
    return out

@model(r'^llvm\.memset|^memset$')
def m_memset(c):
    p, v, n = c.args[0], c.args[1], c.args[2]
    if cval(v) != 0: raise Unsupported('memset non-zero')
    k = cval(n)
    if isinstance(p, Opaque): return None
    if k is not None and cval(p.o) is not None and k <= 4096 and not p.r.meta.get('elem'):
        # typed zero cells appear on demand
        lo = int(cval(p.o)); hi = lo + int(k)
        r = p.r
        def X(cx, st, off, ty, size):
            o = cval(off)
            if o is not None and lo <= o and o + size <= hi: return zero_of(ty)
            if o is not None and (o + size <= lo or o >= hi): return None
            d = cx.decide(st, and_(ge(off, I(lo)), le(add(off, I(size)), I(hi))))
            if d is True: return zero_of(ty)
            raise Unsupported('memset/unknown offset')
        c.st.mem[r.id] = log(c.st, r) + (('X', X, None),)
        for tr in c.cx.track: tr.append(('w', r, p.o, int(k), c.st.hyps(), 'memset', None))
        return c.args[0] if c.rty.k == 'ptr' else None
    ty = p.r.meta.get('elem') or DOUBLE
    es = c.cx.m.sizeof(ty)
    cnt = exact_div(n, es) if div_ok(n, es) else idiv(n, I(es))
    q = fresh('q', 'I')
    if c.cx.boundcheck and p.r.size is not None:
        c.cx.oblige('bounds', 'memset at %s in bounds of %s' % (c.where, p.r.name), c.st, le(add(p.o, n), I(p.r.size)))
    for tr in c.cx.track: tr.append(('w', p.r, add(p.o, mul(q, I(es))), es, c.st.hyps() + (ge(q, I(0)), lt(q, cnt)), 'memset', ty))
    c.st.mem[p.r.id] = log(c.st, p.r) + (('M', ((q, cnt),), add(p.o, mul(q, I(es))), es, zero_of(ty), TRUE),)
    return c.args[0] if c.rty.k == 'ptr' else None

@model(r'^strtod$|^std::strtod|^strtold$')
def m_strtod(c):
    p = c.args[0]
    s = const_string(c.cx, p)
    if s is None: raise Unsupported('strtod of a non-constant string')
    if c.cx.exact_literals:
        return const(parse_decimal(s), 'R')
    from fractions import Fraction
    v = float(s)
    if v != v: return app('fp_nan', [], 'R')
    if v in (float('inf'), float('-inf')): return app('fp_inf' if v > 0 else 'fp_neginf', [], 'R')
    return const(Fraction(v), 'R')

def parse_decimal(s):
    from fractions import Fraction
    return Fraction(s.strip())
Ctx.exact_literals = False

def const_string(cx, p):
    if isinstance(p, Ptr) and p.r.meta.get('init'):
        v = p.r.meta['init'].get(0)
        if v and v[0][0] == 'cstr':
            o = int(cval(p.o))
            return v[0][1][o:].split(b'\0')[0].decode('utf-8', 'replace')
        if v and v[0] == ('zero',): return ''
    return None

# ---------------------------------------------------------------- C++ runtime
@model(r'^__cxa_guard_acquire')
def m_guard(c):
    g = c.st.ghost.get('guards', frozenset())
    key = c.args[0].r.id
    if key in g: return I(0)
    c.st.ghost['guards'] = g | {key}
    return I(1)
@model(r'^__cxa_guard_release|^__cxa_atexit|^__cxa_guard_abort')
def m_guardr(c): return I(0) if c.rty.k == 'int' else None

def ti_bases(cx, ti):
    t, v, k = cx.m.global_init(ti)
    out = []
    if v and v[0] == 'cagg':
        for et, ev in v[1][2:]:
            if ev[0] == 'glob': out.append(ev[1])
    return out

def ti_derives(cx, a, b):
    if a == b: return True
    if a not in cx.m._gtext: return False
    return any(ti_derives(cx, x, b) for x in ti_bases(cx, a))

def dyn_ti(cx, st, p):
    """typeinfo symbol of the dynamic class of the object p points to"""
    if 'ti' in p.r.meta: return p.r.meta['ti']
    v = load(cx, st, Ptr(p.r, I(0)), PTR)
    if isinstance(v, Ptr) and v.r.meta.get('global', '').startswith('_ZTV'):
        return '_ZTI' + v.r.meta['global'][4:]
    raise Unsupported('dynamic type of %r' % (p,))

@model(r'^__dynamic_cast$')
def m_dyncast(c):
    p = c.args[0]
    def one(p):
        if isinstance(p, NullT): return NULL
        if isinstance(p, PIte): return PIte(p.c, one(p.a), one(p.b))
        src = dyn_ti(c.cx, c.st, p)
        dst = c.args[2].r.meta['global']
        return p if ti_derives(c.cx, src, dst) else NULL
    return one(p)

# ---------------------------------------------------------------- OpenMP runtime
@model(r'^__kmpc_fork_call$')
def m_fork(c):
    fn = c.args[2]
    st = c.st
    g = Region('gtid', I(4)); t = Region('btid', I(4))
    for r in (g, t): st.mem[r.id] = (('C', {0: (I(0), 4)}),)
    if c.cx.omp_regions is not None: c.cx.omp_regions.append(fn.name)
    old = c.st.ghost.get('omp_par', 0)
    saved = {k: c.st.ghost.get(k) for k in ('omp_par', 'omp_wm')}
    st.ghost['omp_wm'] = Region('peek').id
    st.ghost['omp_par'] = old + 1
    out = c.ex.call_function(fn.name, [Ptr(g), Ptr(t)] + c.args[3:], st, c.depth + 1)
    for s, v in out:
        s.ghost.pop('dispatch', None)
        for k, v_ in saved.items():
            if v_ is None: s.ghost.pop(k, None)
            else: s.ghost[k] = v_
    return out
Ctx.omp_regions = None

@model(r'^__kmpc_for_static_init_')
def m_static(c):
    c.st.omp = {'kind': 'for', 'wm': c.st.ghost.get('omp_wm')}
    chunk = c.args[8]; sched = cval(c.args[2])
    c.cx.assumptions.add('OpenMP runtime: a worksharing loop executes every iteration exactly once, in any order, on any thread')
    return None
@model(r'^__kmpc_for_static_fini')
def m_fini(c):
    c.st.omp = None
    return None
@model(r'^__kmpc_dispatch_init_8u')
def m_dinit(c):
    c.st.ghost['dispatch'] = (c.args[3], c.args[4], c.args[5], 0)
    return None
@model(r'^__kmpc_dispatch_next_8u')
def m_dnext(c):
    lb, ub, st_, n = c.st.ghost['dispatch']
    if n: return I(0)
    c.st.ghost['dispatch'] = (lb, ub, st_, 1)
    # args: loc, gtid, plast, plower, pupper, pstride
    c.st.omp = {'kind': 'for', 'wm': c.st.ghost.get('omp_wm')}
    for p, v in ((c.args[3], lb), (c.args[4], ub), (c.args[5], st_)):
        store(c.cx, c.st, p, v, Ty('int', 64))
    c.cx.assumptions.add('OpenMP runtime: a worksharing loop executes every iteration exactly once, in any order, on any thread')
    return I(1)
@model(r'^__kmpc_(reduce|reduce_nowait)$')
def m_reduce(c):
    c.st.omp = None
    c.cx.assumptions.add('OpenMP runtime: reduction combines the private copies of all threads exactly once')
    return I(1)
@model(r'^__kmpc_(end_reduce|end_reduce_nowait|barrier|push_num_threads|end_single|omp_taskwait|serialized_parallel|end_serialized_parallel|critical|end_critical)')
def m_knop(c): return I(0) if c.rty.k == 'int' else None
@model(r'^__kmpc_(single|master|global_thread_num)')
def m_single(c): return I(1) if 'single' in c.name or 'master' in c.name else I(0)
@model(r'^omp_get_wtime')
def m_wtime(c): return fresh('wtime', 'R')
@model(r'^omp_get')
def m_ompget(c):
    v = fresh('omp', 'I'); c.st.fact(and_(ge(v, I(1)), lt(v, I(1 << 20)))); return v

# ---------------------------------------------------------------- std::vector
def vec_parts(cx, st, this):
    b = load(cx, st, this, PTR); e = load(cx, st, padd(this, I(8)), PTR)
    return b, e
def vec_set(cx, st, this, b, e, cap=None):
    store(cx, st, this, b, PTR); store(cx, st, padd(this, I(8)), e, PTR); store(cx, st, padd(this, I(16)), cap if cap is not None else e, PTR)

VT = re.compile(r'std::vector<(.*), std::allocator<(.*)> ?>::(\w+)')
def vec_elem(cx, name):
    """element type of a std::vector instantiation from the demangled name"""
    d = cx.dem(name)
    i = d.index('std::vector<') + len('std::vector<')
    lvl = 1; j = i
    while lvl:
        if d[j] == '<': lvl += 1
        elif d[j] == '>': lvl -= 1
        elif d[j] == ',' and lvl == 1: break
        j += 1
    return d[i:j].strip()

ELEM = {'double': (8, DOUBLE), 'float': (4, FLOAT), 'unsigned long': (8, Ty('int', 64)), 'vertex3<double>': (24, None),
        'vertex4<float>': (16, None), 'int': (4, Ty('int', 32)), 'long': (8, Ty('int', 64)), 'bool': None}
def elem_size(cx, et):
    if et.endswith('*'): return 8, PTR
    if et in ELEM: return ELEM[et]
    if et.startswith('std::vector<'): return 24, None
    h = cx.elem_sizes.get(et)
    if h: return h
    raise Unsupported('std::vector of ' + et)
Ctx.elem_sizes = {}

@model(r'^(void )?std::vector<.*>::(push_back|emplace_back)(<.*>)?\(')
def m_push(c):
    cx, st = c.cx, c.st
    es, ety = elem_size(cx, vec_elem(cx, c.name))
    this = c.args[0]
    b, e = vec_parts(cx, st, this)
    if isinstance(b, PIte): raise Unsupported('push_back on conditional vector')
    if isinstance(b, NullT) or isinstance(b, UndefT):
        r = Region('vec@' + c.where, None, None, {'heap': True, 'vec': True}); b = Ptr(r, 0); e = Ptr(r, 0)
        if ety is not None: r.meta['elem'] = ety
    src = c.args[1]
    if b.r.size is not None and b.r.meta.get('vec') and cval(b.o) == 0:      # the contents move to a larger block
        old = b.r; snap = st.mem.get(old.id, ())
        r = Region(old.name, add(e.o, I(es)), None, dict(old.meta))
        def base(cx_, st_, off, ty, size):
            s2 = st_.copy(); s2.mem[old.id] = snap
            v = _read(cx_, s2, old, len(snap) - 1, off, ty, size)
            for f_ in s2.facts: st_.fact(f_)
            return v
        r.base = base; b = Ptr(r, 0); e = Ptr(r, e.o)
    if ety is not None:
        v = load(cx, st, src, ety); store(cx, st, e, v, ety, 'push_back at ' + c.where)
    elif vec_elem(cx, c.name) in getattr(cx, 'elem_layout', {}):
        for o_, t_ in cx.elem_layout[vec_elem(cx, c.name)]: store(cx, st, padd(e, I(o_)), load(cx, st, padd(src, I(o_)), t_), t_, 'push_back at ' + c.where)
    else:
        copy_mem(cx, st, e, src, I(es), c.where)
    ne_ = padd(e, I(es))
    vec_set(cx, st, this, b, ne_)
    # keep the size term of the region in step
    return None if c.rty.k == 'void' else e

@model(r'^std::vector<.*>::(reserve)\(')
def m_reserve(c):
    return None

@model(r'^std::vector<.*>::resize\(')
def m_resize(c):
    cx, st = c.cx, c.st
    es, ety = elem_size(cx, vec_elem(cx, c.name))
    this = c.args[0]; n = canon_u(cx, st, c.args[1], 64)
    b, e = vec_parts(cx, st, this)
    old = pdiff(cx, st, e, b)
    nbytes = mul(n, I(es))
    if isinstance(b, PIte): raise Unsupported('resize on conditional vector')
    r = Region('vec@' + c.where, nbytes, None, {'heap': True, 'vec': True})
    if ety is not None: r.meta['elem'] = ety
    fill = None
    if len(c.args) > 2:
        fill = load(cx, st, c.args[2], ety) if ety is not None else None
        if fill is None: raise Unsupported('resize with fill')
    if not isinstance(b, NullT):
        snap = st.mem.get(b.r.id, ()); src = b
        hold = b.r
    else: hold = None
    def base(cx_, st_, off, ty, size):
        z = fill if fill is not None else (zero_of(ty) if ty.k != 'ptr' else NULL)
        if hold is None: return z
        c1 = lt(off, old)
        d = cx_.decide(st_, c1)
        def rd():
            s2 = st_.copy(); s2.mem[hold.id] = snap
            v = _read(cx_, s2, hold, len(snap) - 1, add(src.o, off), ty, size)
            for f_ in s2.facts: st_.fact(f_)
            return v
        if d is True: return rd()
        if d is False: return z
        return vite(c1, rd(), z)
    r.base = base
    nb = Ptr(r, 0)
    vec_set(cx, st, this, nb, Ptr(r, nbytes))
    return None

@model(r'^std::vector<.*>::clear\(')
def m_clear(c):
    b, e = vec_parts(c.cx, c.st, c.args[0])
    store(c.cx, c.st, padd(c.args[0], I(8)), b, PTR)
    return None

# ---------------------------------------------------------------- Qt: logging is effect-free
@model(r'^QMessageLogger::|^QDebug::|^QDebug& QDebug|^QNoDebug|^operator<<\(QDebug|^QDebug operator<<|^QDebug QtPrivate|QDebugStateSaver|^QString::fromUtf8|^QString::~QString|^QByteArray::|^QString::fromLatin1|^QString::QString\(|^QString::arg\(|^QString QString::arg|^QString::number|^QIODevice::errorString|^QVariant::~|^QTypedArrayData|^QArrayData|^QString::fromAscii|^QChar::')
def m_qt(c):
    d = c.cx.dem(c.name)
    if c.rty.k == 'ptr': return c.args[0] if c.args else Opaque(d)
    if c.rty.k == 'void': return None
    return Opaque(d)

def install(cx):
    cx.models = list(MODELS)
