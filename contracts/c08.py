"""C08: adaptive step subdivision of the embedded Runge-Kutta solvers."""
from contracts.rklib import *
from contracts import c06
from contracts.c06 import *
HARNESS = 'solvers.cpp'; HARNESS_GROUPS = ['c08']
BOUNDED = ['whole steps: one level of 2 or 3 sub steps, two levels of 2 (rkf); one activation at a time with the recursive call by contract: levels 0..7 of 8, 1..3 sub steps, symbolic number of sub steps in the recursive call; other combinations concretely']
EMB = ['rkf', 'rkck', 'rkdp', 'rkdverk', 'rkfeagin10', 'rkfeagin12', 'rkfeagin14', 'rklc', 'rkgl']
SIG = ['ptr', 'int', 'fp', 'fp', 'ptr', 'int']

def sub_fn(w):
    f = [k for k, v in w.m.dem.items() if base_name(v) == SUBSTEP and k in w.m.funcs]
    if len(f) != 1: raise Unsupported('%s not found' % SUBSTEP)
    if [t.k if t.k in ('ptr', 'int') else 'fp' for t in ptypes(w.m.funcs[f[0]])] != SIG: raise Unsupported('parameters of %s are not (count, time, step, state, level)' % SUBSTEP)
    return f[0]
def ptypes(fn): return [p[0] if isinstance(p, tuple) else p.ty for p in fn.params]

def s_induct(name, corr=False, level=0, maxrec=2, n=2):
    """one activation of sub_step against its defining equation; the recursive activation by its own contract"""
    cls = 'nbody_solver_' + name
    def sec(S):
        m = var('m', 'I')
        w, ae, s, t, thr, mind = make(S, cls, corr, maxrec, None, None)
        w.fact(and_(ge(m, I(1)), lt(m, I(1 << 30))))
        f = sub_fn(w)
        w.call1('nbody_solver_rk_butcher::set_substep_subdivisions(unsigned long)', [s, m])
        # buffers exist after a first step
        adv0 = w.cx.contracts.pop(f)
        w.call1('nbody_solver_rk_butcher::set_max_recursion(unsigned long)', [s, I(maxrec)])
        depth = []
        def c_sub(c):
            if f not in c.ex.stack: return c.inline()
            cnt, tt, d, y, lv = c.args[1:6]
            v = ae.get(c.st, y, 'sub step')
            for r in list(ae.bufs):
                if r is y.r or r is ae.y.r: continue
                q = load(c.cx, c.st, Ptr(r, GH), DOUBLE)
                if q is not R(0): store(c.cx, c.st, Ptr(r, GH), fresh('havoc', 'R'), DOUBLE)
            depth.append(1)
            ae.put(c.st, y, app('SUB', [v, tt, d, cnt, lv], 'R'))
        w.cx.contracts[f] = c_sub
        y = ae.y0; T = R(0); d = var('h1', 'R'); w.fact(gt(d, R(0)))
        if level == 0: yb = ae.y
        else:
            yb = ae.new('ysub', var('ys', 'R')); y = var('ys', 'R')
        w.call1(f, [s, I(n), var('tt', 'R'), d, yb, I(level)])
        for q in range(n):
            tq = add(var('tt', 'R'), mul(R(q), d)); k = stages(t, tq, y, d); direct = comb(y, d, t.b2, k)
            if t.embedded and level < maxrec:
                err = norm(lin0([sub(a, b) for a, b in zip(t.b2, t.b1)], k))
                y = ite(and_(gt(d, mind), gt(err, thr)), app('SUB', [y, tq, div(d, to_real(m)), m, I(level + 1)], 'R'), direct)
            else: y = direct
        w.goal('%s level %d of %d: %d sub steps follow the subdivision rule' % (cls, level, maxrec, n), w.st, eq(ae.val(yb), y))
        if level: w.goal('%s level %d: the accepted state is untouched until the sub steps are done' % (cls, level), w.st, eq(ae.val(ae.y), ae.y0))
        if not depth and t.embedded and level < maxrec: raise Unsupported('%s does not recurse' % SUBSTEP)
        S.target(SUBSTEP)
    return sec

def steps_rec(t, T, y, d, n, level, maxrec, sd, thr, mind):
    for _ in range(n):
        k = stages(t, T, y, d); direct = comb(y, d, t.b2, k)
        if t.embedded and level < maxrec:
            err = norm(lin0([sub(a, b) for a, b in zip(t.b2, t.b1)], k))
            y = ite(and_(gt(d, mind), gt(err, thr)), steps_rec(t, T, y, div(d, R(sd)), sd, level + 1, maxrec, sd, thr, mind), direct)
        else: y = direct
        T = add(T, d)
    return y
def steps_imp(t, T, y, d, n, level, maxrec, sd, thr, mind, ks):
    for _ in range(n):
        k = stages(t, T, y, d, ks, 1); direct = comb(y, d, t.b2, k)
        if t.embedded and level < maxrec:
            err = norm(lin0([sub(a, b) for a, b in zip(t.b2, t.b1)], k)); c = and_(gt(d, mind), gt(err, thr))
            y2, k2 = steps_imp(t, T, y, div(d, R(sd)), sd, level + 1, maxrec, sd, thr, mind, k)
            y = ite(c, y2, direct); ks = [ite(c, a, b) for a, b in zip(k2, k)]
        else: y = direct; ks = k
        T = add(T, d)
    return y, ks
def s_whole(name, maxrec, sd, corr=False):
    """the whole step as the caller sees it, recursion included"""
    cls = 'nbody_solver_' + name
    def sec(S):
        w, ae, s, t, thr, mind = make(S, cls, corr, maxrec, sd, None, False)
        d = var('h0', 'R'); w.fact(gt(d, R(0)))
        advise(w, s, cls, d)
        y = steps_imp(t, ae.t0, ae.y0, d, 1, 0, maxrec, sd, thr, mind, None)[0] if t.implicit else steps_rec(t, ae.t0, ae.y0, d, 1, 0, maxrec, sd, thr, mind)
        w.goal('%s: step with at most %d levels of %d sub steps' % (cls, maxrec, sd), w.st, eq(ae.val(ae.y), y))
        w.goal('%s: time advances by exactly dt whatever the subdivision' % cls, w.st, eq(ae.time(), add(ae.t0, d)))
        w.goal('%s: one step counted whatever the subdivision' % cls, w.st, eq(ae.step(), I(1)))
        S.target('nbody_solver_rk_butcher::advise', SUBSTEP)
    return sec
def sections(tier):
    out = []
    for n in EMB:
        big = n.startswith('rkfeagin')
        if n not in ('rkgl', 'rklc'):
            out.append((n + ' one level', s_whole(n, 1, 2)))
            if not big:
                out.append((n + ' one level, compensated', s_whole(n, 1, 2, True)))
                out.append((n + ' three sub steps', s_whole(n, 1, 3)))
        else: out.append((n + ' one level', s_whole(n, 1, 2)))
    out.append(('rkf two levels', s_whole('rkf', 2, 2)))
    for n in EMB[:4]:
        for l in range(3): out.append(('%s induction, level %d' % (n, l), s_induct(n, False, l, 2, 2)))
    out.append(('rkf induction, 3 sub steps', s_induct('rkf', False, 0, 1, 3)))
    out.append(('rkf induction, compensated', s_induct('rkf', True, 1, 3, 2)))
    for l in range(4): out.append(('rkf induction, level %d of 8' % (2 * l + 1), s_induct('rkf', False, 2 * l + 1, 8, 1)))
    for n in EMB[4:7]: out.append((n + ' induction', s_induct(n, False, 0, 1, 1)))
    return out
