"""C17: conservation statistics."""
import re
from contracts.datalib import *
from contracts import datalib
from contracts.c16 import fn
EXTRACT = dict(datalib.EXTRACT, only=['nbody_data.cpp', 'nbody_engine.cpp', 'nbody_engine_simple.cpp'])
HARNESS = 'c17.cpp'
HARNESS_TUS = ['nbody_data.cpp', 'nbody_engine.cpp', 'nbody_engine_simple.cpp']
ASSUME = ['QString::contains tells whether a letter is in the check list; Qt logging has no effect on the statistics; at least one body and fewer than 2^31 of them']
LETTERS = 'PLEV'
def has(l): return var('has_' + l, 'B')
def lib(w):
    def contains(c):
        t = models.qtext(c, c.args[1])
        if t not in LETTERS: raise Unsupported('check list letter ' + repr(t))
        return has(t)
    w.cx.models.insert(0, (re.compile(r'^QString::contains\('), contains))
    w.cx.models.insert(0, (re.compile(r'^QDebug::|^QMessageLogger::|^operator<<\(QDebug|^QDebug::~|^QString::arg'), lambda c: c.args[0] if c.rty.k == 'ptr' else None))

def getter(w, d, st, name, n):
    """value of a getter that returns a vertex or a number"""
    f = fn(w, 'nbody_data::' + name)
    if n == 1:
        r = w.ex.call_function(f, [d.p], st.copy(), 0)
        if len(r) != 1: raise Unsupported(name)
        return [r[0][1]]
    t = Region('ret', I(24), None, {'elem': DOUBLE})
    r = w.ex.call_function(f, [Ptr(t, 0), d.p], st.copy(), 0)
    if len(r) != 1: raise Unsupported(name)
    return [load(w.cx, r[0][0], Ptr(t, I(8 * q)), DOUBLE) for q in range(3)]
GET = {'P': ('impulce', 'total_impulce', 3), 'L': ('impulce_moment', 'total_impulce_moment', 3), 'V': ('mass_center', 'mass_center', 3), 'E': ('energy', 'total_energy', 1)}

def spec(w, d, l, alt=False):
    N = d.N; j = fresh('j', 'I')
    X = lambda i, q: d.base_at('vrt', i, q); U = lambda i, q: d.base_at('vel', i, q); M = lambda i: d.base_at('mass', i, 0)
    def total(t, n=N):
        v = sum_(j, I(0), n, t)
        # lemma: the first term of a sum can be taken out (n >= 1)
        w.cx.pv.sum_lemmas = w.cx.pv.sum_lemmas or {}
        w.cx.pv.sum_lemmas[as_atom(v)] = add(subst(t, {as_atom(j): I(0)}), sum_(j, I(0), sub(n, I(1)), subst(t, {as_atom(j): add(j, I(1))})))
        return v
    if l == 'P': return [total(mul(U(j, q), M(j))) for q in range(3)]
    if l == 'V': return [div(total(mul(X(j, q), M(j))), total(M(j))) for q in range(3)]
    if l == 'L':
        v = [mul(U(j, q), M(j)) for q in range(3)]
        return [total(sub(mul(X(j, (q + 1) % 3), v[(q + 2) % 3]), mul(X(j, (q + 2) % 3), v[(q + 1) % 3]))) for q in range(3)]
    kin = total(mul(add(add(mul(U(j, 0), U(j, 0)), mul(U(j, 1), U(j, 1))), mul(U(j, 2), U(j, 2))), M(j)))
    def pair(a, b):
        dr = [sub(X(a, q), X(b, q)) for q in range(3)]; r2 = add(add(mul(dr[0], dr[0]), mul(dr[1], dr[1])), mul(dr[2], dr[2]))
        return ite(eq(a, b), R(0), ite(lt(r2, EPS), R(0), div(neg(mul(M(a), M(b))), sqrt(r2))))
    if not alt: pot = total(pair(idiv(j, N), imod(j, N)), mul(N, N))
    return [add(div(kin, R(2)), div(pot, R(2)))]

def s_stats(first, engine=False):
    def sec(S):
        w = S.world(); lib(w); N = w.N(); w.fact(lt(N, I(1 << 31))); w.fact(and_(lt(mul(N, N), I(1 << 62)), ge(mul(N, N), N), ge(mul(N, N), I(1))))
        d = Data(w, N, ctor=True); sat_check(w, S, 'statistics')
        loops.set_cell(w.st, d.r, off(w, 'd_done'), I(0 if first else 1), 1)
        # arbitrary remembered values: every member vertex and number of the statistics
        done = off(w, 'd_done'); used = {}
        lg = w.st.mem[d.r.id]; cells = dict(lg[-1][1])
        for o in sorted(cells):
            v, sz = cells[o]
            if sz == 8 and isinstance(v, T) and v.sort == 'R' and off(w, 'd_list') < o < done: cells[o] = (var('old%d' % o, 'R'), 8)
        w.st.mem[d.r.id] = lg[:-1] + (('C', cells),)
        e = NULL
        if engine:
            # before the call the container holds something else; reading the engine makes it D_vrt, D_vel
            e = w.ctor('nbody_engine_simple')
            for f in ('vrt', 'vel'): w.st.mem[d.A[f].id] = (('X', default_base('OLD_' + f)),)
            def get_data(c):
                c.cx.oblige('contract', 'the statistics are of the container asked', c.st, TRUE if isinstance(c.args[1], Ptr) and c.args[1].r is d.r else FALSE)
                for f in ('vrt', 'vel'): c.st.mem.pop(d.A[f].id, None)
            w.cx.contracts[w.vfn('nbody_engine_simple', 'get_data')] = get_data
        S.target('nbody_data::print_statistics', 'summation', 'summation_k', 'impulce_proxy', 'impulce_moment_proxy', 'kinetic_energy_proxy', 'potential_energy_proxy', 'mass_center_proxy', 'nbody_data::potential_energy')
        before = {l: (getter(w, d, w.st, 'get_initial_' + GET[l][0], GET[l][2]), getter(w, d, w.st, 'get_last_' + GET[l][1], GET[l][2])) for l in LETTERS}
        for st, _ in w.call(fn(w, 'nbody_data::print_statistics'), [d.p, e]):
            for l in LETTERS:
                want = spec(w, d, l); ini = getter(w, d, st, 'get_initial_' + GET[l][0], GET[l][2]); last = getter(w, d, st, 'get_last_' + GET[l][1], GET[l][2])
                s = st.copy(); s.assume(has(l)); s2 = st.copy(); s2.assume(not_(has(l)))
                for q in range(GET[l][2]):
                    w.goal('%s %d: last value is that of the bodies' % (l, q), s, eq(last[q], want[q]))
                    if first: w.goal('%s %d: first value is remembered' % (l, q), s, eq(ini[q], want[q]))
                    else: w.goal('%s %d: the initial value stays' % (l, q), st, eq(ini[q], before[l][0][q]))
                    w.goal('%s %d: kept when not asked for' % (l, q), s2, eq(last[q], before[l][1][q]))
            w.goal('later statistics know there were earlier ones', st, ne(load(w.cx, st, Ptr(d.r, I(done)), Ty('int', 8)), I(0)))
            d.arrays_of(N, st, 'print_statistics'); d.keep(N, st, 'print_statistics')
            w.goal('print_statistics: time unchanged', st, eq(d.get('time', st), var('D_time', 'R'))); w.goal('print_statistics: step unchanged', st, eq(d.get('step', st), var('D_step', 'I')))
    return sec

def s_err(S):
    """deviations in percent of the initial value"""
    w = S.world(); lib(w); N = w.N(); d = Data(w, N, ctor=True); done = off(w, 'd_done')
    lg = w.st.mem[d.r.id]; cells = dict(lg[-1][1])
    for o in sorted(cells):
        v, sz = cells[o]
        if sz == 8 and isinstance(v, T) and v.sort == 'R' and off(w, 'd_list') < o < done: cells[o] = (var('old%d' % o, 'R'), 8)
    w.st.mem[d.r.id] = lg[:-1] + (('C', cells),)
    S.target('nbody_data::get_impulce_err', 'nbody_data::get_impulce_moment_err', 'nbody_data::get_energy_err')
    for l, g in (('P', 'get_impulce_err'), ('L', 'get_impulce_moment_err')):
        i, t = getter(w, d, w.st, 'get_initial_' + GET[l][0], 3), getter(w, d, w.st, 'get_last_' + GET[l][1], 3)
        ln = lambda v: sqrt(add(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(v[2], v[2])))
        s = w.st.copy(); s.assume(lt(R(0), add(add(mul(i[0], i[0]), mul(i[1], i[1])), mul(i[2], i[2]))))
        v = getter(w, d, s, g, 1)[0]
        w.goal('%s: percent of the initial length' % g, s, eq(mul(v, ln(i)), mul(R(100), ln([sub(t[q], i[q]) for q in range(3)])))); w.goal('%s: not negative' % g, s, ge(v, R(0)))
    i, t = getter(w, d, w.st, 'get_initial_energy', 1)[0], getter(w, d, w.st, 'get_last_total_energy', 1)[0]
    s = w.st.copy(); s.assume(ne(i, R(0))); v = getter(w, d, s, 'get_energy_err', 1)[0]; ab = lambda x: ite(lt(x, R(0)), neg(x), x)
    w.goal('get_energy_err: percent of the initial energy', s, eq(mul(v, ab(i)), mul(R(100), ab(sub(t, i)))))

def s_setters(S):
    """between two statistics the clock, the step counter and the check list may be set: what is remembered stays"""
    for name, args in (('set_time', [var('tt', 'R')]), ('set_step', [var('ss', 'I')]), ('advise_time', [var('dt', 'R')]), ('set_check_list', None)):
        w = S.world(); lib(w); N = w.N(); d = Data(w, N, ctor=True); done = off(w, 'd_done'); old = var('old_done', 'I')
        w.fact(and_(ge(old, I(0)), le(old, I(1)))); w.fact(and_(ge(var('ss', 'I'), I(0)), lt(var('ss', 'I'), I(1 << 62))))
        w.fact(and_(ge(var('D_step', 'I'), I(0)), lt(var('D_step', 'I'), I(1 << 62))))
        loops.set_cell(w.st, d.r, done, old, 1)
        lg = w.st.mem[d.r.id]; cells = dict(lg[-1][1])
        for o in sorted(cells):
            v, sz = cells[o]
            if sz == 8 and isinstance(v, T) and v.sort == 'R' and off(w, 'd_list') < o < done: cells[o] = (var('old%d' % o, 'R'), 8)
        w.st.mem[d.r.id] = lg[:-1] + (('C', cells),)
        if args is None:
            q = Region('list', I(8), None, {}); args = [Ptr(q, 0)]
            w.cx.models.insert(0, (re.compile(r'^QString::operator=\('), lambda c: c.args[0]))
            w.cx.models.insert(0, (re.compile(r'^(bool )?operator[!=]=\(QString const&, QString const&\)|^QString::operator[!=]='), lambda c: var('same_list', 'B')))
        S.target('nbody_data::' + name)
        before = {l: (getter(w, d, w.st, 'get_initial_' + GET[l][0], GET[l][2]), getter(w, d, w.st, 'get_last_' + GET[l][1], GET[l][2])) for l in LETTERS}
        for st, _ in w.call(fn(w, 'nbody_data::' + name), [d.p] + args):
            for l in LETTERS:
                ini = getter(w, d, st, 'get_initial_' + GET[l][0], GET[l][2]); last = getter(w, d, st, 'get_last_' + GET[l][1], GET[l][2])
                for q in range(GET[l][2]):
                    w.goal('%s keeps the initial value of %s %d' % (name, l, q), st, eq(ini[q], before[l][0][q]))
                    w.goal('%s keeps the last value of %s %d' % (name, l, q), st, eq(last[q], before[l][1][q]))
            w.goal('%s: the first statistics stay the first' % name, st, eq(load(w.cx, st, Ptr(d.r, I(done)), Ty('int', 8)), old))
            d.arrays_of(N, st, name); d.keep(N, st, name)
            if name in ('set_time', 'advise_time'): w.goal(name + ': time', st, eq(d.get('time', st), var('tt', 'R') if name == 'set_time' else add(var('D_time', 'R'), var('dt', 'R'))))
            if name in ('set_step', 'advise_time'): w.goal(name + ': step', st, eq(d.get('step', st), var('ss', 'I') if name == 'set_step' else add(var('D_step', 'I'), I(1))))
def sections(tier): return [('setters between statistics', s_setters), ('first statistics', s_stats(True)), ('later statistics', s_stats(False)), ('statistics of an engine', s_stats(False, True)), ('first statistics of an engine', s_stats(True, True)), ('deviations', s_err)]
