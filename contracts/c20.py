"""C20: after reset a solver behaves like a new one: two runs, one with a history, from the same state."""
from contracts.rklib import *
from contracts.c06 import RK
from contracts.indlib import Induction, same_forever
HARNESS = 'solvers.cpp'; HARNESS_GROUPS = ['c20']
BOUNDED = ['any history and any number of steps after the reset (induction); configurations: implicit solvers with their default refinement, at most one level of step subdivision, Bulirsch-Stoer with 3 levels, Adams-Bashforth from the starters euler, rk4, rklc, rkgl, smoothed midpoint; other configurations concretely']

def build(S, name, opt):
    w = S.world(); w.cx.unroll = 64
    ae = AbsEngine(w)
    def mk(n, o):
        cls = 'nbody_solver_' + n
        if n == 'adams':
            st, _ = mk(o['starter'], {})
            s = w.ctor(cls, [st, I(o['rank']), B(o.get('corr', False))])
        elif n == 'bulirsch_stoer': s = w.ctor(cls, [I(o.get('levels', 3)), var('thr', 'R')])
        else: s = w.ctor(cls)
        if n in RK:
            b = 'nbody_solver_rk_butcher::'
            w.call1(b + 'set_max_recursion(unsigned long)', [s, I(o.get('rec', 0))]); w.call1(b + 'set_correction(bool)', [s, B(o.get('corr', False))])
            w.call1(b + 'set_substep_subdivisions(unsigned long)', [s, I(2)])
        return s, cls
    s, cls = mk(name, opt)
    w.call1('nbody_solver::set_engine(nbody_engine*)', [s, ae.e])
    w.call1('nbody_solver::set_time_step(double, double)', [s, R(0), var('maxdt', 'R')])
    return w, ae, s, cls
def s_restart(name, opt, hist, after, tag):
    def sec(S):
        yr = var('yr', 'R'); out = []
        for run in (0, 1):
            w, ae, s, cls = build(S, name, opt)
            hh = var('h', 'R'); w.fact(gt(hh, R(0)))
            if run:
                for k in range(hist): advise(w, s, cls, hh)
                w.call1(w.vfn(cls, 'reset'), [s])
            ae.put(w.st, ae.y, yr); ae.set_time(w.st, var('tr', 'R'))
            if run: w.call1(w.vfn(cls, 'reset'), [s])
            tr = []
            for k in range(after):
                advise(w, s, cls, hh); tr.append(ae.val(ae.y))
            out.append((w, tr))
        w, tr = out[1]
        for k in range(after): w.goal('%s: step %d after a reset with %d steps of history equals that of a new solver' % (tag, k + 1, hist), w.st, eq(tr[k], out[0][1][k]))
        S.target('nbody_solver_%s::reset' % name if name not in RK else 'nbody_solver_rk_butcher::reset')
    return sec
def s_any(name, opt, K, period, after, tag):
    """any history: reset from the general state of a solver that has run K or more steps (its buffers hold anything); after `after` steps the whole object
    state equals that of a new solver, hence all later steps are equal too"""
    def sec(S):
        yr = var('yr', 'R'); ds = [var('d%d' % k, 'R') for k in range(after)]
        w0, ae0, s0, cls = build(S, name, opt)
        for d in ds: w0.fact(gt(d, R(0)))
        ae0.put(w0.st, ae0.y, yr); ae0.set_time(w0.st, var('tr', 'R')); tr0 = []
        for d in ds: advise(w0, s0, cls, d); tr0.append(ae0.val(ae0.y))
        for res in range(period):
            w, ae, s, cls = build(S, name, opt)
            for d in ds: w.fact(gt(d, R(0)))
            hh = var('h', 'R'); w.fact(gt(hh, R(0)))
            for k in range(K): advise(w, s, cls, hh)
            ind = Induction(w, ae, s); ind.mark()
            for k in range(period): advise(w, s, cls, hh)
            _, y, t = ind.generalise({}, 'g', zeros=False)
            for k in range(res): advise(w, s, cls, hh)
            if res == period - 1:
                keep = w.st.copy(); advise(w, s, cls, hh); ind.closed({}, tag); w.st = keep
            w.call1(w.vfn(cls, 'reset'), [s]); ae.put(w.st, ae.y, yr); ae.set_time(w.st, var('tr', 'R')); w.call1(w.vfn(cls, 'reset'), [s])
            for k, d in enumerate(ds):
                advise(w, s, cls, d)
                w.goal('%s: step %d after a reset with any longer history (%d mod %d) equals that of a new solver' % (tag, k + 1, K + period + res, period), w.st, eq(ae.val(ae.y), tr0[k]))
            same_forever(w0, ae0, s0, w, ae, s, lambda w, ae, s, k: advise(w, s, cls, ds[0]), '%s: after %d steps the solver is in the state of a new one after as many' % (tag, after), period)
        S.target('nbody_solver_%s::reset' % name if name not in RK else 'nbody_solver_rk_butcher::reset')
    return sec
def sections(tier):
    out = []
    def g(name, opt, K, period, after, tag): out.append((tag + ', any history', s_any(name, opt, K, period, after, tag)))
    for n in ('euler', 'midpoint', 'rk4', 'trapeze'): g(n, {}, 1, 1, 1, n)
    g('midpoint_stetter', {}, 2, 2, 2, 'smoothed midpoint'); g('bulirsch_stoer', {'levels': 3}, 2, 2, 2, 'bulirsch_stoer')
    for n in RK: g(n, {}, 1, 1, 1, n); g(n, {'corr': True}, 1, 1, 1, n + ' compensated')
    g('rkf', {'rec': 1}, 1, 1, 1, 'rkf subdividing')
    for rank in range(1, 6):
        for c in (False, True): g('adams', {'rank': rank, 'corr': c, 'starter': 'euler'}, rank + 2, rank, rank + 2, 'adams %d%s from euler' % (rank, ' compensated' if c else ''))
    for st in ('midpoint_stetter', 'rklc', 'rkgl', 'rk4'):
        for rank in (1, 2, 3): g('adams', {'rank': rank, 'starter': st}, rank + 2, rank, rank + 2, 'adams %d from %s' % (rank, st))
    def a(name, opt, hist, after, tag): out.append(('%s, history %d' % (tag, hist), s_restart(name, opt, hist, after, tag)))
    for n in ('euler', 'midpoint', 'rk4', 'trapeze'): a(n, {}, 2, 2, n)
    for hh in (0, 1, 2, 3): a('midpoint_stetter', {}, hh, 3, 'smoothed midpoint')
    a('bulirsch_stoer', {'levels': 3}, 1, 2, 'bulirsch_stoer')
    for n in RK:
        big = n.startswith('rkfeagin')
        a(n, {}, 1 if big else 2, 1 if big else 2, n); a(n, {'corr': True}, 1, 1, n + ' compensated')
    for n in ('rkgl', 'rklc'): a(n, {}, 0, 3, n)
    a('rkf', {'rec': 1}, 1, 1, 'rkf subdividing')
    for rank in range(1, 6):
        for c in (False, True):
            for hh in sorted({0, 1, rank, rank + 2, 8}): a('adams', {'rank': rank, 'corr': c, 'starter': 'euler'}, hh, rank + 3, 'adams %d%s from euler' % (rank, ' compensated' if c else ''))
    for st in ('midpoint_stetter', 'rklc', 'rkgl', 'rk4'):
        for rank in (1, 2, 3): a('adams', {'rank': rank, 'starter': st}, 2, rank + 2, 'adams %d from %s' % (rank, st))
    return out
