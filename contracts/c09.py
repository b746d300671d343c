"""C09: Bulirsch-Stoer steps are the polynomial extrapolation in h^2 of smoothed midpoint solutions; the extrapolators' values and estimates."""
from contracts.absengine import *
from fractions import Fraction as Fr
HARNESS = 'solvers.cpp'; HARNESS_GROUPS = ['c09']
BOUNDED = ['contracts: Bulirsch-Stoer with max_level 1..8 (any threshold, any state, any derivative), extrapolators of order 1..3 over fixed sub step sequences of up to 6 levels with arbitrary vectors; deeper ones concretely']
h = var('h', 'R')
def half(x): return mul(x, R(Fr(1, 2)))
SEQ = [2, 4, 6, 8, 12, 16, 24, 32]
def lagrange(n, a, b, p=2):
    """weights at 0 of the polynomial in (1/n)^p through levels a..b"""
    out = {}
    for i in range(a, b + 1):
        w = Fr(1)
        for j in range(a, b + 1):
            if j != i: w *= Fr(n[i] ** p, n[i] ** p - n[j] ** p)
        out[i] = w
    return out
def comb(ws, T):
    s = R(0)
    for i, w in ws.items(): s = add(s, mul(R(w), T[i]))
    return s
def stetter(t, y, d, k):
    u = v = y
    for _ in range(k):
        u1 = add(u, mul(d, F(add(t, half(d)), add(v, mul(half(d), F(t, u))))))
        v = add(v, mul(half(d), add(F(t, u), F(add(t, d), u1)))); u = u1; t = add(t, d)
    return half(add(u, v))

def s_bs(ml, steps=1):
    cls = 'nbody_solver_bulirsch_stoer'
    def sec(S):
        w = S.world(); w.cx.unroll = 64
        ae = AbsEngine(w)
        thr = var('thr', 'R'); w.fact(gt(thr, R(0)))
        s = solver(w, ae, cls, [I(ml), thr])
        y = ae.y0; T0 = R(0)
        for q in range(steps):
            d = var('h%d' % q, 'R'); w.fact(gt(d, R(0))); t = add(ae.t0, T0); T0 = add(T0, d)
            advise(w, s, cls, d)
            T = [stetter(t, y, div(d, R(n)), n) for n in SEQ[:ml]]
            if ml < 3: want = T[-1]
            else:
                want = None
                for l in range(ml - 1, 1, -1):
                    full = comb(lagrange(SEQ, 0, l), T)
                    if want is None: want = full
                    else:
                        err = norm(sub(full, comb(lagrange(SEQ, 1, l), T)))
                        want = ite(lt(err, thr), full, want)
            got = ae.val(ae.y)
            w.goal('Bulirsch-Stoer, %d levels: state after step %d' % (ml, q + 1), w.st, eq(got, want))
            w.goal('Bulirsch-Stoer, %d levels: time after step %d' % (ml, q + 1), w.st, eq(ae.time(), add(ae.t0, T0)))
            y = got
        S.target(cls + '::advise', cls + '::compute_substep', 'nbody_solver_midpoint_stetter::advise', 'nbody_extrapolator_neville::update_table', 'nbody_extrapolator_neville::estimate_error', 'nbody_extrapolator_neville::extrapolate')
    return sec

def mkvec(w, vals):
    """a std::vector<size_t> holding the given numbers"""
    a = Region('counts', I(8 * len(vals)), None, {}); w.st.mem[a.id] = (('C', {8 * i: (I(v), 8) for i, v in enumerate(vals)}),)
    v = Region('vec', I(24), None, {}); e = Ptr(a, I(8 * len(vals)))
    w.st.mem[v.id] = (('C', {0: (Ptr(a, 0), 8), 8: (e, 8), 16: (e, 8)}),)
    return Ptr(v, 0)
def s_ext(kind, order, seq):
    cls = 'nbody_extrapolator_' + kind
    def sec(S):
        w = S.world(); w.cx.unroll = 64
        ae = AbsEngine(w); n = seq
        e = w.ctor(cls, [ae.e, I(order), mkvec(w, seq)])
        out = ae.new('out', R(0)); inp = ae.new('in', R(0))
        big = w.call1(w.vfn(cls, 'estimate_error'), [e, I(0)])
        w.goal('%s: no estimate from one level is below any threshold' % kind, w.st, ge(big, R(Fr(10) ** 300)))
        for rnd in range(2):
            T = []
            for l in range(len(seq)):
                T.append(var('T%d_%d' % (rnd, l), 'R')); ae.put(w.st, inp, T[l])
                w.call1(w.vfn(cls, 'update_table'), [e, I(l), inp])
                w.call1(w.vfn(cls, 'extrapolate'), [e, I(l), out])
                if kind == 'neville':
                    want = comb(lagrange(n, 0, l, order), T); prev = comb(lagrange(n, 1, l, order), T) if l else None
                else:
                    def ber(m):
                        ws = [(-1) ** (i + 1) * n[i] ** order for i in range(m)]; t = sum(ws)
                        return comb({i: Fr(x, t) for i, x in enumerate(ws)}, T)
                    want = ber(l); prev = ber(l - 1) if l else None
                w.goal('%s order %d: value at level %d%s' % (kind, order, l, ' (table reused)' if rnd else ''), w.st, eq(ae.val(out), want))
                if l:
                    er = w.call1(w.vfn(cls, 'estimate_error'), [e, I(l)])
                    w.goal('%s order %d: error estimate at level %d is the distance of the two best values' % (kind, order, l), w.st, or_(eq(er, norm(sub(want, prev))), eq(er, norm(sub(prev, want)))))
        S.target(cls + '::update_table', cls + '::extrapolate', cls + '::estimate_error')
    return sec
def sections(tier):
    out = [('bs %d levels' % m, s_bs(m)) for m in range(1, 9)] + [('bs 3 levels, two steps', s_bs(3, 2)), ('bs 1 level, three steps', s_bs(1, 3))]
    out += [('bs 4 levels, two steps', s_bs(4, 2)), ('bs 5 levels, two steps', s_bs(5, 2))]
    for k in ('neville', 'berrut'):
        for o in (1, 2, 3): out.append(('%s order %d' % (k, o), s_ext(k, o, [2, 4, 6, 8, 12])))
        out.append((k + ' irregular steps', s_ext(k, 2, [1, 3, 4, 9, 11, 20])))
    return out
