"""C18: options give the engine and the solver they name, configured as they say."""
from contracts.qtlib import *
from contracts.c16 import fn
from contracts.c12 import qstring
from nbv.models import collect_cells, const_cells
HARNESS = 'c18.cpp'
HARNESS_GROUPS = ['parser', 'engines', 'solvers']
EXTRACT = dict(skip=())
ASSUME = ['QMap, QVariant and QString by their documentation; an option that is read as a number is a valid number']
TRUST = ['what the constructors and setters make of their arguments is the subject of C01, C04 to C09']
class Options:
    """a map of options about which nothing is known"""
    def __init__(self, w):
        self.w = w; Qt(w); cx = w.cx
        m = lambda rx, f: cx.models.insert(0, (re.compile(rx), f))
        def put(c, p, q): store(c.cx, c.st, p, Ptr(Region('variant', None, None, {'qv': q}), 0), PTR)
        def get(c, p):
            v = load(c.cx, c.st, p, PTR)
            if not isinstance(v, Ptr) or 'qv' not in v.r.meta: raise Unsupported('variant')
            return v.r.meta['qv']
        def lit(c, p):
            t = const_string(c.cx, p)
            if t is None: raise Unsupported('string literal')
            return t
        m(r'^QVariant::QVariant\(\)$', lambda c: put(c, c.args[0], ('str', '')))
        m(r'^QVariant::QVariant\((int|unsigned int|long long|unsigned long long|double|bool)\)$', lambda c: put(c, c.args[0], ('val', c.args[1])))
        m(r'^QVariant::QVariant\(char const\*\)$', lambda c: put(c, c.args[0], ('str', lit(c, c.args[1]))))
        m(r'^QVariant::QVariant\(QString const&\)$', lambda c: put(c, c.args[0], ('text', qget(c.cx, c.st, c.args[1]))))
        m(r'^QVariant::QVariant\(QVariant( const&|&&)\)$', lambda c: put(c, c.args[0], get(c, c.args[1])))
        m(r'^QVariant::~QVariant\(\)$', lambda c: None)
        def mget(c, p):
            v = load(c.cx, c.st, p, PTR)
            if not isinstance(v, Ptr) or 'qm' not in v.r.meta: raise Unsupported('map of options')
            return v.r.meta['qm']
        self.mget = mget
        def mset(c, p, t): store(c.cx, c.st, p, Ptr(Region('map', None, None, {'qm': t}), 0), PTR)
        def assign(c):
            q = get(c, c.args[1]); s = c.args[0].r.meta.get('slot')
            if s is not None: mp, k = s; mset(c, mp, mget(c, mp) + ((k, q),))
            else: put(c, c.args[0], q)
            return c.args[0]
        m(r'^QVariant::operator=\(QVariant( const&|&&)\)$', assign)
        M = r'^QMap<QString, QVariant>::'
        m(M + r'QMap\(\)$', lambda c: mset(c, c.args[0], ('empty',))); m(M + r'QMap\(QMap<QString, QVariant>( const&|&&)\)$', lambda c: mset(c, c.args[0], mget(c, c.args[1]))); m(M + r'~QMap\(\)$', lambda c: None)
        m(M + r'operator\[\]\(QString const&\)$', lambda c: Ptr(Region('slot', I(16), None, {'slot': (c.args[0], qget(c.cx, c.st, c.args[1]))}), 0))
        def insert(c): mset(c, c.args[0], mget(c, c.args[0]) + ((qget(c.cx, c.st, c.args[1]), get(c, c.args[2])),))
        m(M + r'insert\(QString const&, QVariant const&\)$', insert)
        def remove(c): mset(c, c.args[0], mget(c, c.args[0]) + ((qget(c.cx, c.st, c.args[1]), None),)); return I(1)
        m(M + r'remove\(QString const&\)$', remove)
        def value(c): k = qget(c.cx, c.st, c.args[2]); put(c, c.args[0], self.lookup(mget(c, c.args[1]), k, get(c, c.args[3])))
        m(M + r'value\(QString const&, QVariant const&\) const$', value)
        m(M + r'contains\(QString const&\) const$', lambda c: self.has(mget(c, c.args[0]), qget(c.cx, c.st, c.args[1])))
        def tostr(c):
            q = get(c, c.args[1])
            if q[0] == 'str': t = (q[1],)
            elif q[0] == 'text': t = q[1]
            elif q[0] == 'opt' and q[2][0] in ('str', 'opt'): t = (('sym', 'opt', q),)
            else: raise Unsupported('text of a variant')
            qset(c.cx, c.st, c.args[0], t)
        m(r'^QVariant::toString\(\) const$', tostr)
        for n, kind, lo, hi in (('toUInt', 'i', 0, 1 << 32), ('toInt', 'i', -(1 << 31), 1 << 31), ('toULongLong', 'i', 0, 1 << 64), ('toLongLong', 'i', -(1 << 63), 1 << 63), ('toDouble', 'r', 0, 0), ('toFloat', 'r', 0, 0), ('toBool', 'b', 0, 0)):
            m(r'^QVariant::%s\((bool\*)?\) const$' % n, (lambda kind, lo, hi: lambda c: self.conv(c.st, get(c, c.args[0]), kind, lo, hi))(kind, lo, hi))
        def eqs(c):
            l = const_string(c.cx, c.args[1]); t = qget(c.cx, c.st, c.args[0])
            if l is None: raise Unsupported('string comparison')
            r = self.is_(c.st, t, l); return not_(r) if '!=' in c.cx.dem(c.name) else r
        m(r'^QString::operator[=!]=\(char const\*\) const$|^operator[=!]=\(QString const&, char const\*\)$', eqs)
        def eqq(c):
            a, b = qget(c.cx, c.st, c.args[0]), qget(c.cx, c.st, c.args[1])
            for x, y in ((a, b), (b, a)):
                if len(y) <= 1 and all(isinstance(z, str) for z in y): r = self.is_(c.st, x, ''.join(y)); return not_(r) if '!=' in c.cx.dem(c.name) else r
            raise Unsupported('string comparison')
        m(r'^operator[=!]=\(QString const&, QString const&\)$', eqq)
        r = Region('params'); w.st.mem[r.id] = (('C', {0: (Ptr(Region('map', None, None, {'qm': ('any',)}), 0), 8)}),); self.p = Ptr(r, 0)
    def lookup(self, mp, k, dflt):
        for e in reversed(mp[1:]):
            if same_text(e[0], k) is TRUE: return dflt if e[1] is None else e[1]
            if same_text(e[0], k) is not FALSE: raise Unsupported('names of options')
        if mp[0] == 'empty': return dflt
        if len(k) != 1 or not isinstance(k[0], str): raise Unsupported('name of an option')
        return ('opt', k[0], dflt)
    def has(self, mp, k):
        for e in reversed(mp[1:]):
            if same_text(e[0], k) is TRUE: return B(e[1] is not None)
        return FALSE if mp[0] == 'empty' else var('has_' + k[0], 'B')
    def conv(self, st, q, kind, lo, hi):
        if q[0] == 'opt':
            d = self.conv(st, q[2], kind, lo, hi); k = q[1]; h = var('has_' + k, 'B')
            if kind == 'b': o = var('flag_' + k, 'B'); return or_(and_(h, o), and_(not_(h), d))
            if kind == 'i':
                o = var('int_' + k, 'I'); return ite(h, ite(and_(ge(o, I(lo)), lt(o, I(hi))), o, I(0)), d)
            return ite(h, var('real_' + k, 'R'), d)
        v = q[1]
        if q[0] == 'str':
            try: v = float(v) if kind == 'r' else int(v)
            except ValueError: raise Unsupported('number in a literal')
            return R(v) if kind == 'r' else I(v) if kind == 'i' else B(q[1] not in ('', '0', 'false'))
        if q[0] != 'val': raise Unsupported('number in a variant')
        if kind == 'b': return v if v.sort == 'B' else ne(v, I(0))
        if kind == 'r': return to_real(v) if v.sort == 'I' else v
        if v.sort != 'I': raise Unsupported('integer in a variant')
        return v
    def is_(self, st, t, l):
        if all(isinstance(x, str) for x in t): return B(''.join(t) == l)
        if len(t) != 1 or t[0][:2] != ('sym', 'opt'): raise Unsupported('string comparison')
        return self.optis(st, t[0][2], l)
    def optis(self, st, q, l):
        if q[0] == 'str': return B(q[1] == l)
        k = q[1]; v = var('%s_is_%s' % (k, l), 'B'); done = st.ghost.get('lits', ())
        if (k, l) not in done:
            for k2, l2 in done:
                if k2 == k: st.fact(not_(and_(v, var('%s_is_%s' % (k2, l2), 'B'))))
            st.ghost['lits'] = done + ((k, l),)
        h = var('has_' + k, 'B'); d = self.optis(st, q[2], l)
        return or_(and_(h, v), and_(not_(h), d))
    # what an option means
    def _q(self, k, d): return ('opt', k, ('str', d) if isinstance(d, str) else ('val', d))
    def u(self, k, d, hi=1 << 32): return self.conv(self.w.st, self._q(k, I(d)), 'i', 0, hi)
    def r(self, k, d): return self.conv(self.w.st, self._q(k, R(d)), 'r', 0, 0)
    def b(self, k): return self.conv(self.w.st, self._q(k, FALSE), 'b', 0, 0)
    def t(self, k, d, l, st=None): return self.optis(st or self.w.st, self._q(k, d), l)
def alike(w, st, a, b, what, seen=None, depth=0):
    """two objects are the same: same class, same values, the same behind pointers"""
    seen = seen if seen is not None else set()
    def known(v):
        while type(v).__name__ == 'PIte':
            if w.cx.pv.valid(st.hyps(), v.c): v = v.a
            elif w.cx.pv.valid(st.hyps(), not_(v.c)): v = v.b
            else: raise Unsupported('pointer in an object')
        return v
    a, b = known(a), known(b)
    if isinstance(a, NullT) and isinstance(b, NullT): return
    if isinstance(a, Fn) and isinstance(b, Fn): w.goal(what, st, TRUE if a.name == b.name else FALSE); return
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        w.goal(what, st, FALSE if (isinstance(a, (Ptr, NullT)) and isinstance(b, (Ptr, NullT))) else TRUE if same(a, b) else FALSE); return
    if a.r is b.r: w.goal(what, st, eq(a.o, b.o)); return
    if (a.r.id, b.r.id) in seen: return
    seen.add((a.r.id, b.r.id))
    if 'qstr' in a.r.meta or 'qstr' in b.r.meta: w.goal(what + ': text', st, same_text(a.r.meta.get('qstr', ()), b.r.meta.get('qstr', ()))); return
    if not const_cells(st, a.r) or not const_cells(st, b.r): raise Unsupported('contents of an object')
    ca, cb = collect_cells(w.cx, st, a.r), collect_cells(w.cx, st, b.r); w.goal(what + ': same members', st, TRUE if {k: s for k, (v, s) in ca.items()} == {k: s for k, (v, s) in cb.items()} else FALSE); w.goal(what + ': same place', st, eq(a.o, b.o))
    for k in sorted(set(ca) & set(cb)):
        x, y = ca[k][0], cb[k][0]
        if x is UNDEF or y is UNDEF: continue
        if isinstance(x, T) and isinstance(y, T):
            if x.sort != y.sort: w.goal('%s: member at %d' % (what, k), st, eq(tob(x), tob(y)) if 'B' in (x.sort, y.sort) else FALSE)
            elif x.sort == 'I' and ca[k][1] == 8: w.goal('%s: member at %d' % (what, k), st, eq(imod(sub(x, y), I(1 << 64)), I(0)))
            else: w.goal('%s: member at %d' % (what, k), st, eq(x, y))
        else: alike(w, st, x, y, '%s: member at %d' % (what, k), seen, depth + 1)
def cases(cx, outs, get=lambda st, v: v):
    """one state per value: where paths were joined, the cases are taken apart again"""
    work = list(outs)
    while work:
        st, v = work.pop(0)
        if cx.pv.valid(st.hyps(), FALSE): continue
        if type(v).__name__ == 'PIte':
            a = st.copy(); a.assume(v.c); b = st.copy(); b.assume(not_(v.c)); work = [(a, v.a), (b, v.b)] + work
        else: yield st, v
def tob(x): return ne(x, I(0)) if x.sort == 'I' else x
RK = ['rkck', 'rkdp', 'rkdverk', 'rkf', 'rkfeagin10', 'rkfeagin12', 'rkfeagin14', 'rkgl', 'rklc']
PLAIN = {'euler': 'euler', 'midpoint': 'midpoint', 'midpoint-st': 'midpoint_stetter', 'rk4': 'rk4'}
SOLVERS = ['adams', 'bs', 'trapeze'] + RK + list(PLAIN)
def b2i(b): return b
def s_solver(kind):
    def sec(S):
        w = S.world(); O = Options(w); cx = w.cx; S.target('nbody_create_solver'); call = lambda f, a: w.call1(f, a); starters = []
        CS = fn(w, 'nbody_create_solver'); ref = None; st0 = w.st
        def nested(c):
            mp = O.mget(c, c.args[0]); none = ('val', I(0)); g = lambda k: O.lookup(mp, (k,), none); s0 = c.st
            cx.oblige('contract', 'adams: the starter is of the type asked for', s0, TRUE if g('solver') == ('opt', 'starter_solver', ('str', 'euler')) else FALSE); cx.oblige('contract', 'adams: the starter has no starter option of its own', s0, TRUE if g('starter_solver') == none else FALSE)
            cx.oblige('contract', 'adams: other options hold for the starter', s0, TRUE if mp[0] == 'any' and all(e[0] in (('solver',), ('starter_solver',)) for e in mp[1:]) else FALSE)
            s1 = s0.copy(); s1.assume(var('starter_ok', 'B')); s2 = s0.copy(); s2.assume(not_(var('starter_ok', 'B'))); s1.ghost['started'] = s2.ghost['started'] = (1,)
            return [(s1, STARTER), (s2, NULL)]
        STARTER = Ptr(Region('starter', None, None, {'heap': True}), 0)
        rank = O.u('rank', 1)
        if kind == 'adams':
            cx.contracts['nbody_create_solver'] = nested; ref = w.ctor('nbody_solver_adams', [STARTER, rank, O.b('correction')])
        elif kind == 'bs':
            def bs(c):
                r = Region('made'); c.st.mem[r.id] = (('C', {0: (c.args[1], 8), 8: (c.args[2], 8)}),); store(c.cx, c.st, c.args[0], Ptr(r, 0), PTR)
            cx.contracts['nbody_solver_bulirsch_stoer::nbody_solver_bulirsch_stoer'] = bs; S.assume('the constructor of the Bulirsch-Stoer solver is used by its arguments (its body: C09)')
            ref = Ptr(Region('obj', None, None, {}), 0); c0 = type('C', (), {})(); c0.cx = cx; c0.st = w.st; c0.args = [ref, O.u('max_level', 8), O.r('error_threshold', 1e-11)]; bs(c0)
        elif kind == 'trapeze': ref = w.ctor('nbody_solver_trapeze', []); call(fn(w, 'nbody_solver_trapeze::set_refine_steps_count'), [ref, O.u('refine_steps_count', 1)])
        elif kind in RK:
            ref = w.ctor('nbody_solver_' + kind, []); B_ = 'nbody_solver_rk_butcher::set_'
            for f, v in (('error_threshold', O.r('error_threshold', 1e-4)), ('max_recursion', O.u('max_recursion', 8)), ('refine_steps_count', O.u('refine_steps_count', 1)), ('substep_subdivisions', O.u('substep_subdivisions', 8)), ('correction', O.b('correction'))): call(fn(w, B_ + f), [ref, v])
        elif kind in PLAIN: ref = w.ctor('nbody_solver_' + PLAIN[kind], [])
        if ref is not None: call(fn(w, 'nbody_solver::set_time_step'), [ref, O.r('min_step', 1e-9), O.r('max_step', 1e-2)]); call(fn(w, 'nbody_solver::set_clamp_to_box'), [ref, O.b('clamp')])
        if kind: w.st.assume(O.t('solver', '', kind))
        else:
            for k in SOLVERS: w.st.assume(not_(O.t('solver', '', k)))
        sat_check(w, S, 'options'); n = 0
        for st, v in cases(cx, w.call(CS, [O.p])):
            n += 1; good = TRUE if kind else FALSE
            if kind == 'adams': good = and_(ge(rank, I(1)), le(rank, I(5)), var('starter_ok', 'B')) if st.ghost.get('started') else FALSE; w.goal('adams: a starter is made for a good rank only', st, TRUE if st.ghost.get('started') else or_(lt(rank, I(1)), gt(rank, I(5))))
            if isinstance(v, NullT): w.goal('no solver for a reason', st, not_(good)); continue
            w.goal('a solver only for good options', st, good)
            if ref is not None: alike(w, st, v, ref, 'the solver that was asked for')
        w.goal('there is an answer', w.st, TRUE if n else FALSE)
    return sec
ENG = {'ah': ('nbody_engine_ah', lambda O: [O.u('full_recompute_rate', 1000), O.r('max_dist', 10), O.r('min_force', 1e-4)]), 'block': ('nbody_engine_block', lambda O: []), 'openmp': ('nbody_engine_openmp', lambda O: []), 'simple': ('nbody_engine_simple', lambda O: [])}
for lay in ('tree', 'heap', 'heap_stackless'): ENG['simple_bh/' + lay] = ('nbody_engine_simple_bh_' + lay, lambda O: [O.r('distance_to_node_radius_ratio', 10), O.u('tree_build_rate', 0, 1 << 64)])
def s_engine(kind):
    def sec(S):
        w = S.world(); O = Options(w); cx = w.cx; S.target('nbody_create_engine', 'tree_layout_from_str'); CE = fn(w, 'nbody_create_engine'); ref = {}
        base = kind.split('/')[0]
        if base:
            cls, a = ENG[kind]; a = a(O)
            if base == 'simple_bh':
                for tt in (0, 1): ref[tt] = w.ctor(cls, [a[0], I(tt), a[1]])
            else: ref[0] = w.ctor(cls, a)
            w.st.assume(O.t('engine', '', base))
        else:
            for k in ('ah', 'block', 'openmp', 'simple', 'simple_bh', 'opencl', 'opencl_bh', 'cuda', 'cuda_bh', 'cuda_bh_tex'): w.st.assume(not_(O.t('engine', '', k)))
        lays = [O.t('tree_layout', 'tree', l) for l in ('tree', 'heap', 'heap_stackless')]; tr = [O.t('traverse_type', 'cycle', l) for l in ('cycle', 'nested_tree')]
        if base == 'simple_bh': w.st.assume(lays[('tree', 'heap', 'heap_stackless').index(kind.split('/')[1])])
        sat_check(w, S, 'options'); n = 0
        for st, v in cases(cx, w.call(CE, [O.p])):
            n += 1
            if isinstance(v, NullT): w.goal('no engine for a reason', st, FALSE if base and base != 'simple_bh' else not_(or_(*tr)) if base else TRUE); continue
            if not base: w.goal('no engine for an unknown name', st, FALSE); continue
            if base != 'simple_bh': alike(w, st, v, ref[0], 'the engine that was asked for'); continue
            w.goal('an engine only for a known traverse type', st, or_(*tr))
            for k in (0, 1):
                s = st.copy(); s.assume(tr[k])
                if not cx.pv.valid(s.hyps(), FALSE): alike(w, s, v, ref[k], 'the engine that was asked for')
        w.goal('there is an answer', w.st, TRUE if n else FALSE)
    return sec
def s_badlayout(S):
    w = S.world(); O = Options(w); S.target('nbody_create_engine', 'tree_layout_from_str'); w.st.assume(O.t('engine', '', 'simple_bh'))
    for l in ('tree', 'heap', 'heap_stackless'): w.st.assume(not_(O.t('tree_layout', 'tree', l)))
    sat_check(w, S, 'options')
    for st, v in cases(w.cx, w.call(fn(w, 'nbody_create_engine'), [O.p])):
        w.goal('no engine for an unknown tree layout', st, TRUE if isinstance(v, NullT) else FALSE)
def s_opencl(kind):
    """the OpenCL engines: constructed, configured and selected as the options say, gone if there is no device"""
    def sec(S):
        w = S.world(); O = Options(w); cx = w.cx; S.target('nbody_create_engine'); bh = kind == 'opencl_bh'; w.st.ghost['cl'] = ()
        def rec(what):
            def f(c):
                c.st.ghost['cl'] = c.st.ghost['cl'] + ((what, tuple(c.args)),)
                if what == 'new': r = Region('vt', None, lambda *a: Fn('nbv_gone')); store(c.cx, c.st, c.args[0], Ptr(r, 0), PTR)
                if what == 'select': c.st.ghost['cl'] = c.st.ghost['cl'] + (('text', (qget(c.cx, c.st, c.args[1]),)),); r = fresh('sel', 'I'); c.st.fact(and_(ge(r, I(-(1 << 31))), lt(r, I(1 << 31)))); c.st.ghost['cl'] = c.st.ghost['cl'] + (('result', (r,)),); return r
            return f
        cls = 'nbody_engine_' + kind; cx.contracts[cls + '::' + cls] = rec('new'); cx.contracts['nbody_engine_opencl::set_block_size'] = rec('block'); cx.contracts['nbody_engine_opencl::select_devices'] = rec('select'); cx.contracts['nbv_gone'] = rec('gone')
        w.st.assume(O.t('engine', '', kind)); lays = [O.t('tree_layout', 'heap', l) for l in ('heap', 'heap_stackless')]; tr = [O.t('traverse_type', 'cycle', l) for l in ('cycle', 'nested_tree')]; bs = O.conv(w.st, O._q('block_size', I(0)), 'i', -(1 << 31), 1 << 31)
        sat_check(w, S, 'options')
        for st, v in cases(w.cx, w.call(fn(w, 'nbody_create_engine'), [O.p])):
            ev = st.ghost['cl']; k = [e[0] for e in ev]; V = lambda b: TRUE if b else FALSE
            if not ev: w.goal('no engine is made for a reason', st, and_(V(bh and isinstance(v, NullT)), or_(not_(or_(*lays)), not_(or_(*tr))))); continue
            w.goal('one engine', st, V(k.count('new') == 1 and k[0] == 'new')); new = ev[0][1]
            if bh: w.goal('engine settings', st, and_(or_(*lays), or_(*tr), eq(new[1], O.r('distance_to_node_radius_ratio', 10)), eq(imod(sub(new[3], O.u('tree_build_rate', 0, 1 << 64)), I(1 << 64)), I(0)), *([implies(t, eq(new[2], I(i))) for i, t in enumerate(tr)] + [implies(lays[0], eq(new[4], I(1))), implies(lays[1], eq(new[4], I(2)))])))
            blk = [e for e in ev if e[0] == 'block']; sel = [e for e in ev if e[0] == 'select']; w.goal('block size is set before the devices are selected', st, V(len(blk) == 1 and len(sel) == 1 and k.index('block') < k.index('select')))
            if len(blk) != 1 or len(sel) != 1: continue
            w.goal('block size of the options', st, implies(var('has_block_size', 'B'), eq(blk[0][1][1], bs))); res = ev[k.index('result')][1][0]; t = ev[k.index('text')][1][0]
            w.goal('devices of the options', st, V(t == (('sym', 'opt', ('opt', 'device', ('str', '0:0'))),)))
            for n, i in (('verbose', 2), ('oclprof', 3)): w.goal('%s of the options' % n, st, eq(tob(sel[0][1][i]), ne(O.conv(st, O._q(n, I(0)), 'i', -(1 << 31), 1 << 31), I(0))))
            ok = eq(res, I(0)); w.goal('an engine exactly if devices were selected', st, ok if isinstance(v, Ptr) else not_(ok)); w.goal('no engine is left behind', st, V(('gone' in k) == isinstance(v, NullT))); w.goal('it is the engine made', st, V(isinstance(v, NullT) or v.r is new[0].r))
    return sec

def s_parse(S):
    """one argument"""
    w = S.world(); O = Options(w); cx = w.cx; S.target('nbody_parse_arguments'); m = lambda rx, f: cx.models.insert(0, (re.compile(rx), f)); used = []
    argv = Region('argv', None, lambda cx_, st, o, ty, size: Ptr(Region('arg', None, None, {'arg': (o,)}), 0))
    def mk(c):
        p = c.args[1]
        if isinstance(p, Ptr) and 'arg' in p.r.meta: qset(c.cx, c.st, c.args[0], (('ar', p.r.meta['arg'][0]),)); return
        t = const_string(c.cx, p)
        if t is None: raise Unsupported('string literal')
        qset(c.cx, c.st, c.args[0], t)
    m(r'^QString::(QString|fromUtf8|fromLocal8Bit)\(char const\*', mk)
    def arg(c, i):
        t = qget(c.cx, c.st, c.args[i])
        if len(t) != 1 or t[0][0] not in ('ar', 'body'): raise Unsupported('text of an argument')
        return t[0]
    Bf = lambda f, o: ne(app(f, [o], 'I'), I(0))
    def starts(c):
        a = arg(c, 0); p = qget(c.cx, c.st, c.args[1])
        if a[0] != 'ar' or p != ('--',): raise Unsupported('what an argument starts with')
        return Bf('dashes', a[1])
    m(r'^QString::startsWith\(QString const&', starts)
    def mid(c):
        a = arg(c, 1)
        if a[0] != 'ar' or cval(c.args[2]) != 2: raise Unsupported('part of an argument')
        qset(c.cx, c.st, c.args[0], (('body', a[1]),))
    m(r'^QString::mid\(', mid); m(r'^QString::(length|size|count)\(\) const$', lambda c: I(len(''.join(qget(c.cx, c.st, c.args[0])))) if all(isinstance(x, str) for x in qget(c.cx, c.st, c.args[0])) else (_ for _ in ()).throw(Unsupported('length')))
    def split(c):
        a = arg(c, 1); s = qget(c.cx, c.st, c.args[2])[0] if isinstance(c.args[2], Ptr) else chr(int(cval(c.args[2])))
        if a[0] != 'body' or s != '=' or cval(c.args[3]) != 0: raise Unsupported('how an argument is split')
        store(c.cx, c.st, c.args[0], Ptr(Region('list', None, None, {'ql': a[1]}), 0), PTR)
    m(r'^QString::split\(', split)
    def lst(c):
        v = load(c.cx, c.st, c.args[0], PTR)
        if not isinstance(v, Ptr) or 'ql' not in v.r.meta: raise Unsupported('string list')
        return v.r.meta['ql']
    def size(c): v = app('pieces', [lst(c)], 'I'); c.st.fact(and_(ge(v, I(1)), lt(v, I(1 << 30)))); return v
    m(r'^QList<QString>::(size|count|length)\(\) const$', size)
    def elem(c):
        o = lst(c); i = cval(c.args[1])
        if i is None: raise Unsupported('list index')
        c.cx.oblige('contract', 'pieces of an argument exist when they are used', c.st, lt(I(int(i)), app('pieces', [o], 'I'))); r = Region('part'); c.st.mem[r.id] = (('C', {0: (qstr((('piece', o, int(i)),)), 8)}),); return Ptr(r, 0)
    m(r'^QList<QString>::(operator\[\]|at)\(', elem); m(r'^QList<QString>::~QList|^QStringList::~|^QFlags<', lambda c: None if not c.cx.dem(c.name).startswith('QFlags') else store(c.cx, c.st, c.args[0], c.args[1], I32))
    ret = Region('ret'); argc = var('argc', 'I'); w.fact(and_(ge(argc, I(0)), lt(argc, I(1 << 31))))
    def loop(ex, f_, depth, header, prev, st, env):
        if used: return None
        blocks = f_.loops[header]; used.append(1); ph = [i for i in f_.blocks[header].insts if i.op == 'phi']
        if len(ph) != 1 or ph[0].ty.k != 'int': raise Unsupported('shape of the loop over the arguments')
        p = ph[0].res; cx.oblige('contract', 'arguments: the program name is none', st, eq(env[p], I(1))); c0 = type('C', (), {})(); c0.cx = cx; c0.st = st
        cx.oblige('contract', 'arguments: no options at first', st, TRUE if O.mget(c0, Ptr(ret, 0)) == ('empty',) else FALSE)
        k = fresh('k', 'I'); s = st.copy(); s.assume(and_(ge(k, I(1)), lt(k, argc))); e = dict(env); e[p] = k; out = []; s.mem[ret.id] = s.mem.get(ret.id, ()) + (('C', {0: (Ptr(Region('map', None, None, {'qm': ('before',)}), 0), 8)}),)
        for dest, pr, s3, e2 in loops.fork(ex, f_, depth, header, blocks, s, e):
          for s2, v in cases(cx, [(s3, load(cx, s3, Ptr(ret, 0), PTR))]):
            ob = lambda n, c: cx.oblige('contract', 'arguments: ' + n, s2, c)
            if not isinstance(v, Ptr) or 'qm' not in v.r.meta: raise Unsupported('map of options')
            mp = v.r.meta['qm']; o = mul(k, I(8)); good = and_(Bf('dashes', o), eq(app('pieces', [o], 'I'), I(2)))
            if dest != header: ob('every argument is looked at', FALSE); continue
            e3 = ex.phis(f_, header, pr, e2, s2); ob('the next argument follows', eq(e3[p], add(k, I(1))))
            if mp == ('before',): ob('an option is not passed over', not_(good)); continue
            ob('only options count', good); ok = len(mp) == 2 and mp[0] == 'before' and mp[1][1] is not None; ob('one option each', TRUE if ok else FALSE)
            if ok: ob('name of the option', same_text(mp[1][0], (('piece', o, 0),))); ob('value of the option', same_text(mp[1][1][1], (('piece', o, 1),)) if mp[1][1][0] == 'text' else FALSE)
        s = st.copy(); e = dict(env); e[p] = argc; s.assume(ge(argc, I(1)))
        for dd, pr, s2, e2 in loops.fork(ex, f_, depth, header, blocks, s, e):
            if dd == header: cx.oblige('contract', 'arguments: end', s2, FALSE)
            else: out.append((dd, pr, s2, e2))
        return out
    cx.loop_inv['nbody_parse_arguments'] = loop; sat_check(w, S, 'arguments')
    w.call(fn(w, 'nbody_parse_arguments'), [Ptr(ret, 0), argc, Ptr(argv, 0)])
    if not used: raise Unsupported('shape of the parser')
def sections(tier):
    return [('arguments', s_parse)] + [('solver ' + (k or 'of another name'), s_solver(k)) for k in SOLVERS + ['']] + [('engine ' + (k or 'of another name'), s_engine(k)) for k in list(ENG) + ['']] + [('unknown layout', s_badlayout), ('engine opencl', s_opencl('opencl')), ('engine opencl_bh', s_opencl('opencl_bh'))]
