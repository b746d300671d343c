"""C06: Runge-Kutta solvers advance by the formula of their tableau, with step subdivision under error control (C08 shares the lemmas)."""
from contracts.rklib import *
from contracts.indlib import Induction
HARNESS = 'solvers.cpp'; HARNESS_GROUPS = ['c06']
BOUNDED = ['implicit solvers with 0..3 refinement sweeps, more concretely']
h = var('h', 'R')
SUBSTEP = 'nbody_solver_rk_butcher::sub_step'

def stages(t, T, y, d, ks=None, refine=1):
    """the stage derivatives; ks: starting guess of an implicit method (None: first step); T: the time"""
    n = t.s; at = [add(T, mul(t.c[i], d)) for i in range(n)]
    if not t.implicit:
        k = []
        for i in range(n):
            s = y
            for j in range(i): s = add(s, mul(mul(d, t.a[i][j]), k[j]))
            k.append(F(at[i], s))
        return k
    if ks is None:
        k0 = F(T, y); k = [F(at[i], add(y, mul(mul(d, t.c[i]), k0))) for i in range(n)]
    else: k = list(ks)
    for _ in range(refine):
        for i in range(n):
            s = y
            for j in range(n): s = add(s, mul(mul(d, t.a[i][j]), k[j]))
            k[i] = F(at[i], s)
    return k
def comb(y, d, b, k):
    for q, x in zip(b, k): y = add(y, mul(mul(d, q), x))
    return y
def lin0(co, k):
    s = R(0)
    for q, x in zip(co, k): s = add(s, mul(q, x))
    return s

def make(S, cls, corr=False, maxrec=None, subdiv=None, refine=None, cut=True):
    w = S.world(); w.cx.unroll = 64; w.fact(gt(h, R(0)))
    ae = AbsEngine(w)
    s = solver(w, ae, cls)
    thr = var('thr', 'R'); w.fact(gt(thr, R(0))); mind = var('mindt', 'R'); w.fact(ge(mind, R(0)))
    w.call1('nbody_solver::set_time_step(double, double)', [s, mind, var('maxdt', 'R')])
    B_ = 'nbody_solver_rk_butcher::'
    w.call1(B_ + 'set_error_threshold(double)', [s, thr])
    if corr: w.call1(B_ + 'set_correction(bool)', [s, TRUE])
    if maxrec is not None: w.call1(B_ + 'set_max_recursion(unsigned long)', [s, I(maxrec)])
    if subdiv is not None: w.call1(B_ + 'set_substep_subdivisions(unsigned long)', [s, I(subdiv)])
    if refine is not None: w.call1(B_ + 'set_refine_steps_count(unsigned long)', [s, I(refine)])
    t = read_table(w, w.call1(B_ + 'table() const', [s]))
    for f in [k for k, v in w.m.dem.items() if cut and base_name(v) == SUBSTEP and k in w.m.funcs]:
        def c_sub(c, f=f):
            if f not in c.ex.stack: return c.inline()
            n, tt, d, y, lv = c.args[1:6]
            v = ae.get(c.st, y, 'sub step')
            for r in ae.bufs:
                if r is not y.r and r is not ae.y.r:
                    q = load(c.cx, c.st, Ptr(r, GH), DOUBLE)
                    if q is not R(0): store(c.cx, c.st, Ptr(r, GH), fresh('havoc', 'R'), DOUBLE)
            ae.put(c.st, y, app('SUB', [v, tt, d, n, lv], 'R'))
        w.cx.contracts[f] = c_sub
    return w, ae, s, t, thr, mind

def expect(t, T, y, d, ks, refine, thr, mind, level, maxrec, subdiv):
    k = stages(t, T, y, d, ks, refine)
    direct = comb(y, d, t.b2, k)
    if not t.embedded or level >= maxrec: return direct, k, direct
    err = norm(lin0([sub(a, b) for a, b in zip(t.b2, t.b1)], k))
    sub_ = app('SUB', [y, T, div(d, R(subdiv)), I(subdiv), I(level + 1)], 'R')
    return ite(and_(gt(d, mind), gt(err, thr)), sub_, direct), k, direct

def s_step(name, corr=False, refine=None, steps=1, maxrec=0):
    cls = 'nbody_solver_' + name
    def sec(S):
        w, ae, s, t, thr, mind = make(S, cls, corr, maxrec, None, refine)
        y = ae.y0; ks = None; T = R(0)
        for q in range(steps):
            d = var('h%d' % q, 'R'); w.fact(gt(d, R(0)))
            advise(w, s, cls, d)
            y, ks, _ = expect(t, add(ae.t0, T), y, d, ks, 1 if refine is None else refine, thr, mind, 0, maxrec, 8); T = add(T, d)
            w.goal('%s: state after step %d' % (cls, q + 1), w.st, eq(ae.val(ae.y), y))
            w.goal('%s: time after step %d' % (cls, q + 1), w.st, eq(ae.time(), add(ae.t0, T)))
        S.target('nbody_solver_rk_butcher::advise', SUBSTEP, 'nbody_solver_rk_butcher::sub_step_implicit' if t.implicit else 'nbody_solver_rk_butcher::sub_step_explicit', cls + '::' + cls)
    return sec
def s_any(name, corr=False, refine=None, maxrec=0):
    """any number of steps: one step from the general state (implicit methods: the stages of the previous step are arbitrary)"""
    cls = 'nbody_solver_' + name
    def sec(S):
        w, ae, s, t, thr, mind = make(S, cls, corr, maxrec, None, refine); y = ae.y0; ks = None; r = 1 if refine is None else refine
        for q in range(2 if t.implicit else 1):
            ind = Induction(w, ae, s); ind.mark() if q else None
            tq = ae.time(); advise(w, s, cls, h); y, ks, _ = expect(t, tq, y, h, ks, r, thr, mind, 0, maxrec, 8)
        if not t.implicit: ind.mark()
        def roles(ks): return {'k%d' % i: k for i, k in enumerate(ks)} if t.implicit else {}
        g, y, T = ind.generalise(roles(ks), 'g')
        d = var('hn', 'R'); w.fact(gt(d, R(0))); advise(w, s, cls, d)
        y, ks, _ = expect(t, T, y, d, [g['k%d' % i] for i in range(t.s)] if t.implicit else None, r, thr, mind, 0, maxrec, 8)
        w.goal('%s, any step: new state' % cls, w.st, eq(ae.val(ae.y), y)); w.goal('%s, any step: time advances by exactly dt' % cls, w.st, eq(ae.time(), add(T, d)))
        ind.closed(roles(ks), cls); S.target('nbody_solver_rk_butcher::advise', SUBSTEP)
    return sec
def s_round(name):
    """every compensated accumulation makes an arbitrary rounding error: state minus carried error still advances exactly by the formula, for any number of steps"""
    cls = 'nbody_solver_' + name
    def sec(S):
        w, ae, s, t, thr, mind = make(S, cls, True, 0); ae.round = True; Y = ae.y0; c = R(0)
        for q in range(3):
            if q == 1: ind = Induction(w, ae, s); ind.mark()
            if q == 2:
                g, Y, T0 = ind.generalise({'c': c}, 'g'); c = g['c']; ae.put(w.st, ae.y, add(Y, c)); ae.eps.append(c)
            T = ae.time(); d = var('h%d' % q, 'R'); w.fact(gt(d, R(0))); ae.fargs = []; advise(w, s, cls, d); k = []
            if len(ae.fargs) < t.s or not t.implicit and len(ae.fargs) != t.s: raise Unsupported('%d derivatives in a step of %d stages' % (len(ae.fargs), t.s))
            for i, (ti, x) in enumerate(ae.fargs[-t.s:]):
                if t.implicit: k.append(F(ti, x)); continue
                want = Y
                for j in range(i): want = add(want, mul(mul(d, t.a[i][j]), k[j]))
                e = ae.rounding(x, want)
                w.goal('%s, rounding, %s: stage %d differs from its formula by one rounding error' % (cls, ('first step', 'second step', 'any step')[q], i), w.st, eq(x, add(want, e if e is not None else c)))
                k.append(F(ti, x))
            Y = comb(Y, d, t.b2, k); e = ae.rounding(ae.val(ae.y), Y)
            w.goal('%s, rounding, %s: the state differs from the exact sum by one rounding error' % (cls, ('first step', 'second step', 'any step')[q]), w.st, eq(ae.val(ae.y), add(Y, e if e is not None else ae.eps[-1])))
            if e is None: return
            c = e
        ind.closed({'c': c}, cls + ', rounding'); S.target('nbody_solver_rk_butcher::advise', SUBSTEP, 'nbody_solver_rk_butcher::sub_step_explicit')
    return sec
def sections(tier):
    out = [(n + ', carried errors', s_round(n)) for n in RK]
    for n in RK:
        for c in (False, True): out.append((n + (' with compensation' if c else '') + ', any step', s_any(n, c)))
    for n in ('rkgl', 'rklc'):
        for r in (0, 2, 3): out.append(('%s, %d refinements, any step' % (n, r), s_any(n, refine=r)))
    for n in RK:
        big = n.startswith('rkfeagin')
        out.append((n, s_step(n, steps=1 if big else 2)))
        out.append((n + ' with compensation', s_step(n, corr=True, steps=1 if big else 2)))
    for n in ('rkgl', 'rklc'):
        for r in (0, 2, 3): out.append(('%s, %d refinements' % (n, r), s_step(n, refine=r, steps=2)))
    from contracts.c08 import s_whole
    for n in ('rkf', 'rkck', 'rkdp'):
        for c in (False, True): out.append(('%s sub steps%s' % (n, ', compensated' if c else ''), s_whole(n, 1, 2, c)))
    return out
