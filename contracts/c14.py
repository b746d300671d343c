"""C14: the run loop: steps until the end time, frames and statistics at their intervals."""
import itertools
from contracts.datalib import *
from contracts import datalib
HARNESS = 'c14.cpp'
HARNESS_TUS = ['nbody_data.cpp', 'nbody_engine.cpp', 'nbody_engine_simple.cpp', 'nbody_solver.cpp', 'nbody_solver_euler.cpp', 'nbody_data_stream.cpp', 'nbody_data_stream_reader.cpp']
EXTRACT = dict(only=['nbody_data.cpp', 'nbody_engine.cpp', 'nbody_engine_simple.cpp', 'nbody_solver.cpp', 'nbody_data_stream.cpp'], extra=('-fno-access-control',),
               extra_src=(ROOT + '/harness/inst/data.cpp', ROOT + '/harness/inst/run.cpp'))
BOUNDED = ['number of visitors: 0..3 by unrolling']
ASSUME = ['the engine of the solver keeps its clock in the bodies passed to run (C04); a step is any change of that clock', 'termination of the loop is not claimed: a step may leave the clock where it is']

def world(S, clamp, stream, nvis):
    w = S.world(); N = w.N(); d = Data(w, N); cx = w.cx
    W = type('W', (), {})(); W.w = w; W.d = d
    W.e = w.ctor('nbody_engine_simple')
    # the solver object: the members run reads
    s = w.ctor('nbv_solver', []); W.s = s
    w.call1('nbody_solver::set_engine(nbody_engine*)', [s, W.e])
    W.dt = var('max_step', 'R'); W.min = var('min_step', 'R')
    w.call1('nbody_solver::set_time_step(double, double)', [s, W.min, W.dt])
    w.call1('nbody_solver::set_clamp_to_box(bool)', [s, B(clamp)])
    W.clamp = clamp; W.nvis = nvis
    # visitors
    W.vis = [w.ctor('nbv_step_visitor', []) for _ in range(nvis)]
    v = Region('visitors', I(16 * nvis), None, {'vec': True, 'heap': True}); w.st.mem[v.id] = (('C', {16 * k + o: (W.vis[k] if o == 0 else NULL, 8) for k in range(nvis) for o in (0, 8)}),)
    o = off(w, 's_visitors')
    for k, x in ((0, 0), (8, 16 * nvis), (16, 16 * nvis)): loops.set_cell(w.st, s.r, o + k, Ptr(v, x), 8)
    W.stream = NULL
    if stream:
        r = Region('stream', None, None, {'cls': 'nbv_stream'}); vt = '_ZTV10nbv_stream'
        if vt not in w.m._gtext: raise Unsupported('stream vtable')
        W.stream = Ptr(r, 0); w.st.mem[r.id] = (('C', {0: (vtptr(w, vt), 8)}),)
    W.max_time, W.dump_dt, W.check_dt = var('max_time', 'R'), var('dump_dt', 'R'), var('check_dt', 'R')
    W.tc = off(w, 'd_time')
    def ev(c, *a): c.st.ghost['ev'] = c.st.ghost.get('ev', ()) + (a,)
    def is_data(p): return isinstance(p, Ptr) and p.r is d.r
    def advise(c):
        cx.oblige('contract', 'a step of the maximal size', c.st, eq(c.args[1], W.dt)); ev(c, 'step')
        loops.set_cell(c.st, d.r, W.tc, fresh('t', 'R'), 8)
    def write(c):
        ok = isinstance(c.args[0], Ptr) and c.args[0].r is W.stream.r and is_data(c.args[1])
        cx.oblige('contract', 'the bodies go to the stream', c.st, TRUE if ok else FALSE)
        r = fresh('wr', 'I'); c.st.fact(and_(ge(r, I(-(1 << 31))), lt(r, I(1 << 31)))); ev(c, 'write', r); return r
    def visit(c):
        k = [i for i, x in enumerate(W.vis) if isinstance(c.args[0], Ptr) and c.args[0].r is x.r]
        cx.oblige('contract', 'visitors see the bodies', c.st, TRUE if k and is_data(c.args[1]) else FALSE); ev(c, 'visit', k[0] if k else -1)
    def getd(c): cx.oblige('contract', 'the state is copied to the bodies', c.st, TRUE if is_data(c.args[1]) else FALSE); ev(c, 'get')
    W.y = Ptr(Region('y'), 0)
    def clampc(c):
        ok = isinstance(c.args[1], Ptr) and c.args[1].r is W.y.r
        cx.oblige('contract', 'the state is wrapped', c.st, TRUE if ok else FALSE); cx.oblige('contract', 'wrapped to the box of the bodies', c.st, eq(c.args[2], to_real(var('D_box', 'I')) if getattr(c.args[2], 'sort', 'R') == 'R' else var('D_box', 'I'))); ev(c, 'clamp')
    def stat(c):
        ok = is_data(c.args[0]) and isinstance(c.args[1], Ptr) and c.args[1].r is W.e.r
        cx.oblige('contract', 'statistics of the bodies of the engine', c.st, TRUE if ok else FALSE); ev(c, 'stats')
    cx.contracts['nbv_advise'] = advise; cx.contracts['nbv_write'] = write; cx.contracts['nbv_visit'] = visit
    cx.contracts[w.vfn('nbody_engine_simple', 'get_data')] = getd; cx.contracts[w.vfn('nbody_engine_simple', 'get_y')] = lambda c: W.y
    cx.contracts[w.vfn('nbody_engine_simple', 'clamp')] = clampc; cx.contracts['nbody_data::print_statistics'] = stat
    return W
def vtptr(w, vt): return Ptr(w.ex.glob(vt, w.st).r, 16)

def frame_rules(W, st, evs, t, last, started, name):
    """events of one frame: state copied, then written"""
    cx = W.w.cx
    k = [i for i, e in enumerate(evs) if e[0] == 'write']
    cx.oblige('contract', name + ': at most one frame', st, TRUE if len(k) <= 1 else FALSE)
    if k:
        g = [i for i, e in enumerate(evs) if e[0] == 'get' and i < k[0]]
        cx.oblige('contract', name + ': the state is copied before it is written', st, TRUE if g and not any(e[0] == 'step' for e in evs[g[-1]:k[0]]) else FALSE)
    return evs[k[0]][1] if k else None

def s_run(clamp, stream, nvis):
    def sec(S):
        W = world(S, clamp, stream, nvis); w = W.w; cx = w.cx; t0 = var('D_time', 'R')
        sat_check(w, S, 'run'); S.target('nbody_solver::run')
        tm_of = lambda s: load(cx, s, Ptr(W.d.r, I(W.tc)), DOUBLE)
        due = lambda t, last, step: and_(lt(R(0), step), ge(t, sub(add(last, step), mul(W.dt, R(Fraction(0.1))))))
        used = []
        def loop(ex, f, depth, header, prev, st, env):
            # visitors: plain unrolling
            phis = [i for i in f.blocks[header].insts if i.op == 'phi']
            if sum(p.ty.k == 'double' or (p.ty.k == 'fp') for p in phis) != 2:
                r = loops.try_unroll(ex, f, depth, header, f.loops[header], st, env)
                if r is None: raise Unsupported('loop in run')
                return r
            ps = [p.res for p in phis if p.ty.k in ('double', 'fp')]
            rest = [p.res for p in phis if p.res not in ps]
            used.append(1)
            best = None
            for pc, pd in itertools.permutations(ps):
                n0 = len(cx.obls); seen0 = dict(cx.seen_obl)
                out = iteration(ex, f, depth, header, st, env, pc, pd, rest)
                if all(o.res for o in cx.obls[n0:]): return out
                if best is None: best = (cx.obls[n0:], out)
                del cx.obls[n0:]; cx.seen_obl = seen0
            cx.obls.extend(best[0]); return best[1]
        def iteration(ex, f, depth, header, st, env, pc, pd, rest):
            blocks = f.loops[header]; evs = st.ghost.get('ev', ())
            # before the first step
            r = frame_rules(W, st, evs, t0, None, False, 'start')
            first = and_(lt(R(0), W.dump_dt), le(t0, R(0))) if stream else FALSE
            cx.oblige('contract', 'start: a first frame exactly when recording starts at time zero', st, first if r is not None else not_(first))
            if r is not None: cx.oblige('contract', 'start: going on only after a good write', st, eq(r, I(0)))
            cx.oblige('contract', 'start: nothing else happens', st, TRUE if not any(e[0] in ('step', 'stats', 'visit', 'clamp') for e in evs) else FALSE)
            cx.oblige('contract', 'start: check interval counts from the start', st, eq(env[pc], t0)); cx.oblige('contract', 'start: frame interval counts from the start', st, eq(env[pd], t0))
            out = []
            s = st.copy(); e = dict(env); lc, ldp, t = fresh('lc', 'R'), fresh('ld', 'R'), fresh('t', 'R')
            for x in rest:
                if env[x] is UNDEF: e[x] = fresh('any', 'I')     # not set before the loop: any value
            e[pc] = lc; e[pd] = ldp; loops.set_cell(s, W.d.r, W.tc, t, 8); s.ghost['ev'] = ()
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
                evs = s2.ghost.get('ev', ()); steps = [i for i, x in enumerate(evs) if x[0] == 'step']
                if not steps:
                    cx.oblige('contract', 'the run ends only when the end time is reached', s2, ge(t, W.max_time))
                    cx.oblige('contract', 'the end has no further effect', s2, TRUE if not evs and dest != header else FALSE)
                    s2.ghost['end'] = 'done'; out.append((dest, pr, s2, e2)); continue
                cx.oblige('contract', 'a step only before the end time', s2, lt(t, W.max_time))
                cx.oblige('contract', 'one step at a time', s2, TRUE if len(steps) == 1 else FALSE)
                cl = [i for i, x in enumerate(evs) if x[0] == 'clamp']
                cx.oblige('contract', 'wrapping to the box exactly when asked for, before the step', s2, TRUE if (len(cl) == 1 and cl[0] < steps[0] if clamp else not cl) else FALSE)
                cx.oblige('contract', 'everything else after the step', s2, TRUE if all(i > steps[0] for i, x in enumerate(evs) if x[0] in ('write', 'stats', 'visit')) else FALSE)
                t1 = tm_of(s2); st_n = [x for x in evs if x[0] == 'stats']; vs = [x[1] for x in evs if x[0] == 'visit']
                chk = due(t1, lc, W.check_dt)
                cx.oblige('contract', 'statistics exactly when due', s2, chk if len(st_n) == 1 else not_(chk) if not st_n else FALSE)
                cx.oblige('contract', 'every visitor once, after the statistics', s2, TRUE if sorted(vs) == (list(range(nvis)) if st_n else []) and (not vs or [x[0] for x in evs].index('stats') < [x[0] for x in evs].index('visit')) else FALSE)
                wr = frame_rules(W, s2, evs, t1, ldp, True, 'step'); dmp = due(t1, ldp, W.dump_dt) if stream else FALSE
                cx.oblige('contract', 'a frame exactly when due', s2, dmp if wr is not None else not_(dmp))
                if dest == header:
                    e3 = ex.phis(f, header, pr, e2, s2)
                    if any(e3[x] is not env[x] for x in rest if env[x] is not UNDEF): raise Unsupported('another variable of the run loop changes')
                    if wr is not None: cx.oblige('contract', 'the run goes on only after a good write', s2, eq(wr, I(0)))
                    cx.oblige('contract', 'the next check counts from this one', s2, eq(e3[pc], t1 if st_n else lc)); cx.oblige('contract', 'the next frame counts from this one', s2, eq(e3[pd], t1 if wr is not None else ldp))
                else:
                    cx.oblige('contract', 'leaving early only after a failed write', s2, ne(wr, I(0)) if wr is not None else FALSE)
                    s2.ghost['end'] = 'fail'; out.append((dest, pr, s2, e2))
            return out
        cx.loop_inv['nbody_solver::run'] = loop
        outs = w.call('nbody_solver::run(nbody_data*, nbody_data_stream*, double, double, double)', [W.s, W.d.p, W.stream, W.max_time, W.dump_dt, W.check_dt])
        if not used: raise Unsupported('shape of run')
        for st, v in outs:
            k = st.ghost.get('end')
            if k is None:
                evs = st.ghost.get('ev', ()); r = frame_rules(W, st, evs, t0, None, False, 'start')
                w.goal('run gives up before the first step only after a failed write of the first frame', st, and_(lt(R(0), W.dump_dt), le(t0, R(0)), ne(r, I(0))) if r is not None else FALSE); k = 'fail'
            v = signed32(v)
            w.goal('run returns 0 at the end, -1 after a failed write', st, eq(v, I(0 if k == 'done' else -1)))
            W.d.keep(W.d.N, st, 'run by itself')
    return sec
def signed32(v):
    c = cval(v)
    if c is not None and c >= 1 << 31: return I(int(c) - (1 << 32))
    return v
def sections(tier):
    return [('run, %s, %s, %d visitors' % ('clamped' if c else 'free', 'recorded' if s else 'unrecorded', n), s_run(c, s, n)) for c in (False, True) for s in (False, True) for n in ((0, 1, 3) if c != s else (1, 2))]
