"""C05: every fixed-formula solver advances the state by its published formula and the time by exactly dt."""
from contracts.absengine import *
from contracts.indlib import Induction
HARNESS = 'solvers.cpp'; HARNESS_GROUPS = ['c05']
BOUNDED = ['trapeze with 0,1,2,3,5 refinements; other counts concretely']
h = var('h', 'R')
def half(x): return mul(x, R(Fraction(1, 2)))
def start(S):
    w = S.world(); w.fact(gt(h, R(0)))
    return w, AbsEngine(w)
def done(S, w, ae, what, y, dt=None, cls=''):
    w.goal(what + ': new state', w.st, eq(ae.val(ae.y), y))
    w.goal(what + ': time advances by exactly dt', w.st, eq(ae.time(), add(ae.t0, dt if dt is not None else h)))
    S.target(cls + '::advise')

def euler(t, y, h): return add(y, mul(h, F(t, y)))
def midpoint(t, y, h): return add(y, mul(h, F(add(t, half(h)), add(y, mul(half(h), F(t, y))))))
def simple(cls, step, n=3):
    def sec(S):
        w, ae = start(S); s = solver(w, ae, cls); y = ae.y0; t = R(0)
        for k in range(n):
            d = var('h%d' % k, 'R'); w.fact(gt(d, R(0)))
            advise(w, s, cls, d); y = step(add(ae.t0, t), y, d); t = add(t, d)
            done(S, w, ae, '%s step %d' % (cls, k + 1), y, t, cls)
    return sec
def simple_any(cls, step, ctor=(), prep=None, n=2, tag=''):
    """any number of steps: the step formula from the general state"""
    def sec(S):
        w, ae = start(S); s = solver(w, ae, cls, ctor)
        if prep: prep(w, s)
        for k in range(n):
            if k == n - 1: ind = Induction(w, ae, s); ind.mark()
            advise(w, s, cls, h)
        _, y, t = ind.generalise({}, 'g'); advise(w, s, cls, h)
        w.goal('%s%s, any step: new state' % (cls, tag), w.st, eq(ae.val(ae.y), step(t, y, h))); w.goal('%s%s, any step: time advances by exactly dt' % (cls, tag), w.st, eq(ae.time(), add(t, h)))
        ind.closed({}, cls + tag); S.target(cls + '::advise')
    return sec
def rk4(t, y, h):
    m = add(t, half(h)); k1 = F(t, y); k2 = F(m, add(y, mul(half(h), k1))); k3 = F(m, add(y, mul(half(h), k2))); k4 = F(add(t, h), add(y, mul(h, k3)))
    return add(y, add(mul(div(h, R(6)), add(k1, k4)), mul(div(h, R(3)), add(k2, k3))))

def trapeze(m):
    def step(t, y, h):
        f0 = F(t, y); p = add(y, mul(h, f0))
        for _ in range(m + 1): p = add(y, mul(half(h), add(f0, F(add(t, h), p))))
        return p
    return step
def s_trapeze(S):
    cls = 'nbody_solver_trapeze'
    for m in (None, 0, 1, 2, 3, 5):
        w, ae = start(S); s = solver(w, ae, cls); y = ae.y0; t = R(0)
        if m is not None: w.call1('nbody_solver_trapeze::set_refine_steps_count(unsigned long)', [s, I(m)])
        for k in range(2):
            d = var('h%d' % k, 'R'); w.fact(gt(d, R(0)))
            advise(w, s, cls, d); y = trapeze(1 if m is None else m)(add(ae.t0, t), y, d); t = add(t, d)
            done(S, w, ae, 'trapeze with %s refinements, step %d' % ('default' if m is None else m, k + 1), y, t, cls)

def smooth(t, u, v, d):
    u1 = add(u, mul(d, F(add(t, half(d)), add(v, mul(half(d), F(t, u))))))
    return u1, add(v, mul(half(d), add(F(t, u), F(add(t, d), u1))))
def s_stetter(S):
    cls = 'nbody_solver_midpoint_stetter'
    w, ae = start(S); s = solver(w, ae, cls); t = R(0)
    u = v = ae.y0
    def st(u, v, d): return smooth(add(ae.t0, t), u, v, d)
    for k in range(5):
        d = var('h%d' % k, 'R'); w.fact(gt(d, R(0)))
        advise(w, s, cls, d); u, v = st(u, v, d); t = add(t, d)
        done(S, w, ae, 'smoothed midpoint step %d' % (k + 1), half(add(u, v)), t, cls)
    # restart: after reset the next step starts from the current state, whatever it has been set to
    for k in range(2):
        yn = var('yn%d' % k, 'R')
        ae.put(w.st, ae.y, yn)
        w.call1(w.vfn(cls, 'reset'), [s])
        u = v = yn
        for j in range(3):
            d = var('g%d_%d' % (k, j), 'R'); w.fact(gt(d, R(0)))
            advise(w, s, cls, d); u, v = st(u, v, d); t = add(t, d)
            done(S, w, ae, 'smoothed midpoint, step %d after restart %d' % (j + 1, k + 1), half(add(u, v)), t, cls)

def s_stetter_any(S):
    cls = 'nbody_solver_midpoint_stetter'; w, ae = start(S); s = solver(w, ae, cls); u = v = ae.y0
    t = ae.t0
    for k in range(4):
        if k == 2: ind = Induction(w, ae, s); ind.mark()
        advise(w, s, cls, h); u, v = smooth(t, u, v, h); t = add(t, h)
    def roles(t, u, v): return {'u': u, 'v': v, 'fu': F(t, u), 'fv': F(t, v)}
    g, y, t = ind.generalise(roles(t, u, v), 'g'); w.st.fact(and_(eq(y, half(add(g['u'], g['v']))), eq(g['fu'], F(t, g['u'])), eq(g['fv'], F(t, g['v'])))); ae.put(w.st, ae.y, half(add(g['u'], g['v'])))
    u, v = g['u'], g['v']
    for k in range(2):
        advise(w, s, cls, h); u, v = smooth(t, u, v, h); t = add(t, h)
        w.goal('smoothed midpoint, any %s step: new state' % ('odd', 'even')[k], w.st, eq(ae.val(ae.y), half(add(u, v)))); w.goal('smoothed midpoint, any %s step: time advances by exactly dt' % ('odd', 'even')[k], w.st, eq(ae.time(), t))
    ind.closed(roles(t, u, v), cls); S.target(cls + '::advise')

AB = {1: [1], 2: [Fraction(3, 2), Fraction(-1, 2)], 3: [Fraction(23, 12), Fraction(-16, 12), Fraction(5, 12)],
      4: [Fraction(55, 24), Fraction(-59, 24), Fraction(37, 24), Fraction(-9, 24)],
      5: [Fraction(1901, 720), Fraction(-2774, 720), Fraction(2616, 720), Fraction(-1274, 720), Fraction(251, 720)]}
def adams_coeffs(rank):
    """Adams-Bashforth weights from first principles: integrals over [0,1] of the Lagrange basis at 0,-1,..,-(rank-1)"""
    out = []
    for j in range(rank):
        p = [Fraction(1)]; den = Fraction(1)
        for i in range(rank):
            if i == j: continue
            p = [(p[k - 1] if k else 0) + i * (p[k] if k < len(p) else 0) for k in range(len(p) + 1)]   # * (x + i)
            den *= (i - j)
        out.append(sum(c / (k + 1) for k, c in enumerate(p)) / den)
    return out
def same_coeff(w, S, what, d, want):
    """the double nearest to the rational"""
    return d

def s_adams(rank, corr, anystep=False):
    cls = 'nbody_solver_adams'
    def sec(S):
        w, ae = start(S)
        started = []
        stc = 'nbody_solver_euler'
        sta = w.ctor(stc)
        eng = w.cx.fn('nbody_solver::engine()')
        def c_starter(c):
            p = w.ex.call_function(eng, [c.args[0]], c.st.copy(), 1)[0][1]
            c.cx.oblige('pre', 'starter uses the same engine', c.st, B(isinstance(p, Ptr) and p.r is ae.e.r))
            d = c.args[1]
            y = ae.get(c.st, ae.y)
            ae.put(c.st, ae.y, app('G', [y, d], 'R')); store(c.cx, c.st, ae.ti, add(ae.time(c.st), d), DOUBLE)
            started.append(1)
        w.cx.contracts[w.vfn(stc, 'advise')] = c_starter
        s = solver(w, ae, cls, [sta, I(rank), B(corr)])
        d = h
        A = [R(Fraction(float(c))) for c in adams_coeffs(rank)]
        y = ae.y0; t = R(0); hist = []; n0 = 0
        tag = 'Adams-Bashforth rank %d%s' % (rank, ' with compensation' if corr else '')
        if anystep:
            n = rank + 2 + rank
            for k in range(n):
                if k == n - rank: ind = Induction(w, ae, s); ind.mark()
                hist.insert(0, F(ae.time(), ae.val(ae.y))); advise(w, s, cls, d)
            def roles(): return {'f%d' % j: hist[j] for j in range(rank)}
            g, y, t = ind.generalise(roles(), 'g'); hist = [g['f%d' % j] for j in range(rank)]
            for k in range(rank):
                d = var('h%d' % k, 'R'); w.fact(gt(d, R(0))); advise(w, s, cls, d); hist.insert(0, F(t, y)); m = y
                for j in range(rank): m = add(m, mul(mul(A[j], d), hist[j]))
                w.goal('%s, any step (%d mod %d): new state' % (tag, n + k, rank), w.st, eq(ae.val(ae.y), m)); t = add(t, d)
                w.goal('%s, any step (%d mod %d): time advances by exactly dt' % (tag, n + k, rank), w.st, eq(ae.time(), t)); y = ae.val(ae.y)
            ind.closed(roles(), tag); S.target(cls + '::advise'); return
        def run(steps, tag):
            nonlocal y, t
            hist = []
            for k in range(steps):
                advise(w, s, cls, d)
                yk = ae.val(ae.y)
                g = app('G', [y, d], 'R')
                hist.insert(0, F(add(ae.t0, t), y)); t = add(t, d)
                if len(hist) >= rank:
                    m = y
                    for j in range(rank): m = add(m, mul(mul(A[j], d), hist[j]))
                else: m = None
                # the first steps are the starter's; once the history is full only the formula is allowed (at most rank+1 starting steps)
                ok = eq(yk, m) if m is not None else FALSE
                if k <= rank: ok = or_(ok, eq(yk, g))
                w.goal('%s: step %d' % (tag, k + 1), w.st, ok)
                w.goal('%s: step %d time' % (tag, k + 1), w.st, eq(ae.time(), add(ae.t0, t)))
                # generalise: continue from an arbitrary state
                yn = var('%s_%d' % (tag.replace(' ', ''), k), 'R')
                y = yk
        run(2 * rank + 3, tag)
        # restart: history and compensation are dropped
        yn = var('yr', 'R'); ae.put(w.st, ae.y, yn); y = yn
        w.call1(w.vfn(cls, 'reset'), [s])
        run(rank + 3, tag + ' after restart')
        S.target(cls + '::advise', cls + '::reset')
        w.cx.assumptions.add('Adams starter: any solver, as an arbitrary function of state and step that advances the time by dt')
    return sec
def s_adams_round(rank):
    """every compensated accumulation makes an arbitrary rounding error: state minus carried error still advances exactly by the formula, at any step"""
    cls = 'nbody_solver_adams'
    def sec(S):
        w, ae = start(S); ae.round = True; stc = 'nbody_solver_euler'; sta = w.ctor(stc); A = [R(Fraction(float(c))) for c in adams_coeffs(rank)]
        def c_starter(c):
            ae.put(c.st, ae.y, app('G', [ae.get(c.st, ae.y), c.args[1]], 'R')); store(c.cx, c.st, ae.ti, add(ae.time(c.st), c.args[1]), DOUBLE)
        w.cx.contracts[w.vfn(stc, 'advise')] = c_starter
        s = solver(w, ae, cls, [sta, I(rank), TRUE]); tag = 'Adams-Bashforth rank %d, rounding' % rank; hist = []; Y = ae.y0; c = R(0); n = 2 * rank + 2
        def check(what, d):
            nonlocal Y, c
            for j in range(rank): Y = add(Y, mul(mul(A[j], d), hist[j]))
            e = ae.rounding(ae.val(ae.y), Y)
            w.goal('%s, %s: the state differs from the exact sum by one rounding error' % (tag, what), w.st, eq(ae.val(ae.y), add(Y, e if e is not None else ae.eps[-1] if ae.eps else R(0))))
            c = e; return e is not None
        for k in range(n):
            if k == n - rank: ind = Induction(w, ae, s); ind.mark()
            hist.insert(0, F(ae.time(), ae.val(ae.y))); ne = len(ae.eps); y0 = ae.val(ae.y); advise(w, s, cls, h)
            if len(ae.eps) == ne: Y = ae.val(ae.y); c = R(0); continue      # a starting step
            if not check('step %d' % (k + 1), h): return
        def roles(): return dict({'f%d' % j: hist[j] for j in range(rank)}, c=c)
        g, Y, t = ind.generalise(roles(), 'g'); hist = [g['f%d' % j] for j in range(rank)]; c = g['c']; ae.eps.append(c); ae.put(w.st, ae.y, add(Y, c))
        for k in range(rank):
            d = var('h%d' % k, 'R'); w.fact(gt(d, R(0))); hist.insert(0, F(ae.time(), ae.val(ae.y))); advise(w, s, cls, d)
            if not check('any step (%d mod %d)' % (n + k, rank), d): return
        ind.closed(roles(), tag); S.target(cls + '::advise')
    return sec
def sections(tier):
    return [('adams %d, carried errors' % r, s_adams_round(r)) for r in range(1, 6)] + [('euler', simple('nbody_solver_euler', euler)), ('midpoint', simple('nbody_solver_midpoint', midpoint)), ('rk4', simple('nbody_solver_rk4', rk4)),
            ('trapeze', s_trapeze), ('smoothed midpoint', s_stetter)] + [('adams %d%s' % (r, ' corr' if c else ''), s_adams(r, c)) for r in range(1, 6) for c in (False, True)] + \
           [('adams %d%s, any step' % (r, ' corr' if c else ''), s_adams(r, c, True)) for r in range(1, 6) for c in (False, True)] + \
           [(c + ', any step', simple_any('nbody_solver_' + c, f)) for c, f in (('euler', euler), ('midpoint', midpoint), ('rk4', rk4))] + \
           [('trapeze %d, any step' % m, simple_any('nbody_solver_trapeze', trapeze(m), (), lambda w, s, m=m: w.call1('nbody_solver_trapeze::set_refine_steps_count(unsigned long)', [s, I(m)]), tag=' with %d refinements' % m)) for m in (0, 1, 2, 3, 5)] + \
           [('smoothed midpoint, any step', s_stetter_any)]
