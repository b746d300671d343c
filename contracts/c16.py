"""C16: the body container."""
from contracts.datalib import *
HARNESS = 'c16.cpp'
HARNESS_TUS = ['nbody_data.cpp', 'nbody_engine.cpp']
ASSUME = ['std::vector push_back, resize, clear by their standard contract']

def s_ctor(S):
    w = S.world(); d = Data.__new__(Data); d.w = w; d.tag = 'D'
    d.p = w.ctor('nbody_data', []); d.r = d.p.r
    S.target('nbody_data::nbody_data')
    d.arrays_of(I(0), w.st, 'new container')
    for f in ('step', 'box'): w.goal('new container: %s is zero' % f, w.st, eq(d.get(f), I(0)))
    w.goal('new container: time is zero', w.st, eq(d.get('time'), R(0)))

def s_add(S):
    w = S.world(); N = w.N(lo=0); d = Data(w, N); vals = {}
    args = []
    for f, n, es, ty in (FIELDS[0], FIELDS[1], FIELDS[2], FIELDS[4], FIELDS[3]):
        r = Region('new.' + f, I(n * es), None, {'elem': ty}); vals[f] = [var('new_%s%d' % (f, q), 'R') for q in range(n)]
        w.st.mem[r.id] = (('C', {es * q: (vals[f][q], es) for q in range(n)}),); args.append(Ptr(r, 0))
    sat_check(w, S, 'add_body'); S.target('nbody_data::add_body')
    for st, _ in w.call(fn(w, 'nbody_data::add_body'), [d.p] + args):
        d.arrays_of(add(N, I(1)), st, 'add_body'); d.keep(N, st, 'add_body')
        for f, n, es, ty in FIELDS:
            for q in range(n): w.goal('add_body: %s %d is the given one' % (f, q), st, eq(d.at(f, N, q, st), vals[f][q]))
        same_clock(w, d, st, 'add_body')
def fn(w, base):
    c = [k for k in w.m.funcs if base_name(w.cx.dem(k)) == base]
    if len(c) != 1: raise Unsupported('%d functions named %s' % (len(c), base))
    return c[0]
def same_clock(w, d, st, what, time=True):
    w.goal(what + ': time unchanged', st, eq(d.get('time', st), var(d.tag + '_time', 'R')))
    w.goal(what + ': step unchanged', st, eq(d.get('step', st), var(d.tag + '_step', 'I')))

def s_size(S):
    w = S.world(); N = w.N(lo=0); M = w.N('M', lo=0); d = Data(w, N)
    sat_check(w, S, 'resize'); S.target('nbody_data::resize', 'nbody_data::clear')
    for st, v in w.call(fn(w, 'nbody_data::resize'), [d.p, M]):
        w.goal('resize succeeds', st, TRUE if v is TRUE else ne(v, I(0)) if getattr(v, 'sort', 'I') != 'B' else v)
        d.arrays_of(M, st, 'resize'); d.keep(ite(lt(M, N), M, N), st, 'resize'); same_clock(w, d, st, 'resize')
    for st, v in w.call(fn(w, 'nbody_data::clear'), [d.p]):
        d.arrays_of(I(0), st, 'clear')

def s_clock(S):
    w = S.world(); N = w.N(lo=0); d = Data(w, N); t = var('t', 'R'); s = w.N('s', 0)
    S.target('nbody_data::advise_time', 'nbody_data::set_time', 'nbody_data::set_step', 'nbody_data getters')
    T, K, B = var('D_time', 'R'), var('D_step', 'I'), var('D_box', 'I')
    def after(name, args, time, step):
        for st, v in w.call(fn(w, 'nbody_data::' + name), [d.p] + args):
            w.goal(name + ': time', st, eq(d.get('time', st), time)); w.goal(name + ': step', st, eq(d.get('step', st), step)); d.arrays_of(N, st, name); d.keep(N, st, name)
    after('advise_time', [t], add(T, t), add(K, I(1))); after('set_time', [t], t, K); after('set_step', [s], T, s)
    for g, v in (('get_time() const', T), ('get_step() const', K), ('get_box_size() const', B), ('get_count() const', N)):
        w.goal(g, w.st, eq(w.call1('nbody_data::' + g, [d.p]), v))
    for g, f in (('get_vertites()', 'vrt'), ('get_velosites()', 'vel'), ('get_mass()', 'mass'), ('get_color()', 'color')):
        for c in ('', ' const'):
            v = w.call1('nbody_data::' + g + c, [d.p]); w.goal(g + c, w.st, TRUE if isinstance(v, Ptr) and v.r is d.A[f] and cval(v.o) == 0 else FALSE)

def s_equal(S):
    w = S.world(); N = w.N(lo=0); a = Data(w, N, 'A'); b = Data(w, N, 'B'); eps = var('eps', 'R'); w.fact(ge(eps, R(0)))
    def differ(st, k):
        c = []
        for f in ('vrt', 'vel', 'mass', 'radius'):
            for q in range(3 if f in ('vrt', 'vel') else 1):
                x = sub(a.base_at(f, k, q), b.base_at(f, k, q)); c.append(lt(eps, ite(lt(x, R(0)), neg(x), x)))
        return or_(*c)
    h = search_loop(w, N, differ, 'is_equal'); w.cx.loop_inv['nbody_data::is_equal'] = h
    sat_check(w, S, 'is_equal'); S.target('nbody_data::is_equal')
    for st, v in w.call(fn(w, 'nbody_data::is_equal'), [a.p, b.p, eps]):
        t = v if getattr(v, 'sort', 'I') == 'B' else ne(v, I(0))
        if 'found' not in st.ghost: raise Unsupported('shape of is_equal')
        if st.ghost['found'] is None: w.goal('is_equal: true when no body differs', st, t)
        else: w.goal('is_equal: false when a body differs', st, not_(t))
        a.arrays_of(N, st, 'is_equal'); b.keep(N, st, 'is_equal')
    if not h.used: raise Unsupported('shape of is_equal')
    w = S.world(); N = w.N(lo=0); M = w.N('M', lo=0); w.fact(ne(M, N)); a = Data(w, N, 'A'); b = Data(w, M, 'B')
    def never(ex, f, depth, header, prev, st, env):
        raise Unsupported('containers of different size are compared body by body')
    w.cx.loop_inv['nbody_data::is_equal'] = never
    for st, v in w.call(fn(w, 'nbody_data::is_equal'), [a.p, b.p, eps]):
        w.goal('is_equal: containers of different size differ', st, not_(v if getattr(v, 'sort', 'I') == 'B' else ne(v, I(0))))

def vec3(w, name, st=None, vals=None):
    r = Region(name, I(24), None, {'elem': DOUBLE}); v = vals or [var('%s%d' % (name, q), 'R') for q in range(3)]
    (st or w.st).mem[r.id] = (('C', {8 * q: (v[q], 8) for q in range(3)}),)
    return Ptr(r, 0), v
BLOCK = None
def s_galaxy(S):
    """add_galaxy: a central body and a whole number of blocks of bodies in all; accepted stars lie inside the radius"""
    import re
    w = S.world(); N = w.N(lo=0); d = Data(w, N); cnt = w.N('cnt'); rad = var('rad', 'R'); tm_ = var('tm', 'R'); w.fact(lt(R(0), rad)); w.fact(lt(R(0), tm_))
    ctr, C = vec3(w, 'ctr'); vel, V = vec3(w, 'gvel')
    col = Region('col', I(16), None, {'elem': FLOAT}); CV = [var('col%d' % q, 'R') for q in range(4)]; w.st.mem[col.id] = (('C', {4 * q: (CV[q], 4) for q in range(4)}),)
    def rd(c, p, n=3, es=8, ty=DOUBLE): return [load(c.cx, c.st, Ptr(p.r, add(p.o, I(es * q))), ty) for q in range(n)]
    def add_body(c):
        c.st.ghost['added'] = c.st.ghost.get('added', ()) + ((rd(c, c.args[1]), rd(c, c.args[2]), load(c.cx, c.st, c.args[3], DOUBLE), rd(c, c.args[4], 4, 4, FLOAT)),)
        return None
    w.cx.contracts['nbody_data::add_body'] = add_body
    def dist(c):
        t = fresh('u', 'R'); a, b = load(c.cx, c.st, c.args[0], DOUBLE), load(c.cx, c.st, padd(c.args[0], I(8)), DOUBLE)
        c.st.fact(and_(ge(t, a), lt(t, b))); return t
    w.cx.models.insert(0, (re.compile(r'std::uniform_real_distribution<double>::operator\(\)'), dist))
    w.cx.models.insert(0, (re.compile(r'std::mersenne_twister_engine<.*::mersenne_twister_engine\('), lambda c: None))
    bs = 64
    K = var('K', 'I')           # number of stars: the block size times ceil(cnt / block), less one
    used = []
    def loop(ex, f, depth, header, prev, st, env):
        cx = ex.cx; blocks = f.loops[header]; used.append(1)
        phis = [i for i in f.blocks[header].insts if i.op == 'phi']
        if len(phis) != 1 or phis[0].ty.k != 'int': raise Unsupported('shape of the star loop')
        p = phis[0].res; out = []
        first = st.ghost.get('added', ())
        cx.oblige('contract', 'add_galaxy: one central body first', st, TRUE if len(first) == 1 else FALSE)
        (r, v, m, cl) = first[0]
        for q in range(3):
            cx.oblige('contract', 'add_galaxy: the central body is at the center (%d)' % q, st, eq(r[q], C[q])); cx.oblige('contract', 'add_galaxy: and moves with the galaxy (%d)' % q, st, eq(v[q], V[q]))
        cx.oblige('contract', 'add_galaxy: the first star is number zero', st, eq(env[p], I(0)))
        n = fresh('n', 'I'); nstars = sub(mul(I(bs), add(I(1), idiv(sub(cnt, I(1)), I(bs)))), I(1))
        s = st.copy(); s.assume(and_(ge(n, I(0)), lt(n, nstars))); s.ghost['added'] = (); e = dict(env); e[p] = n
        kinds = set()
        for dest, pr, s2, e2 in loops.fork(ex, f, depth, header, blocks, s, e):
            new = s2.ghost.get('added', ())
            if dest != header: cx.oblige('contract', 'add_galaxy: no star is left out', s2, FALSE); continue
            e3 = ex.phis(f, header, pr, e2, s2); kinds.add(len(new))
            nxt = e3[p]
            cx.oblige('contract', 'add_galaxy: the star number grows with the stars', s2, eq(imod(sub(nxt, add(n, I(len(new)))), I(1 << 64)), I(0)) if len(new) < 2 else FALSE)
            for r, v, mm, cl in new:
                cx.oblige('contract', 'add_galaxy: equal shares of the mass make up the total', s2, eq(add(m, mul(to_real(nstars), mm)), tm_))
                x = [sub(r[q], C[q]) for q in range(3)]
                cx.oblige('contract', 'add_galaxy: a star is inside the galaxy', s2, le(add(add(mul(x[0], x[0]), mul(x[1], x[1])), mul(x[2], x[2])), mul(rad, rad)))
                for q in range(4): cx.oblige('contract', 'add_galaxy: color (%d)' % q, s2, eq(cl[q], CV[q]))
        if 1 not in kinds: cx.oblige('contract', 'add_galaxy: stars are added', s, FALSE)
        s = st.copy(); e = dict(env); e[p] = nstars
        for o in loops.fork(ex, f, depth, header, blocks, s, e):
            if o[0] == header: cx.oblige('contract', 'add_galaxy: ends with the last star', o[2], FALSE)
            else: out.append(o)
        return out
    w.cx.loop_inv['nbody_data::add_galaxy'] = loop
    sat_check(w, S, 'add_galaxy'); S.target('nbody_data::add_galaxy')
    w.call(fn(w, 'nbody_data::add_galaxy'), [d.p, ctr, vel, rad, tm_, cnt, Ptr(col, 0)])
    if not used: raise Unsupported('shape of add_galaxy')


def s_universe(S):
    """make_universe: an empty container, then two galaxies of equal mass side by side with opposite velocities; the box is that of the arguments"""
    w = S.world(); N = w.N(lo=0); d = Data(w, N); cnt = w.N('cnt'); sx, sy, sz = (var(x, 'R') for x in ('sx', 'sy', 'sz'))
    for x in (sx, sy, sz): w.fact(and_(lt(R(0), x), lt(x, R(1 << 50))))
    calls = []
    def gal(c):
        rd = lambda p: [load(c.cx, c.st, Ptr(p.r, add(p.o, I(8 * q))), DOUBLE) for q in range(3)]
        if not c.st.ghost.get('gal'): d.arrays_of(I(0), c.st, 'make_universe: emptied')
        c.st.ghost['gal'] = c.st.ghost.get('gal', ()) + ((rd(c.args[1]), rd(c.args[2]), c.args[3], c.args[4], c.args[5]),); return None
    w.cx.contracts['nbody_data::add_galaxy'] = gal
    sat_check(w, S, 'make_universe'); S.target('nbody_data::make_universe')
    for st, _ in w.call(fn(w, 'nbody_data::make_universe'), [d.p, cnt, sx, sy, sz]):
        g = st.ghost.get('gal', ())
        w.goal('make_universe: two galaxies', st, TRUE if len(g) == 2 else FALSE)
        if len(g) != 2: continue
        for k in range(2):
            w.goal('make_universe: star count of galaxy %d' % k, st, eq(g[k][4], cnt)); w.goal('make_universe: mass of galaxy %d' % k, st, eq(g[k][3], R(1000))); w.goal('make_universe: radius of galaxy %d' % k, st, eq(g[k][2], div(sx, R(2))))
        half = [div(x, R(2)) for x in (sx, sy, sz)]
        for q in range(3):
            w.goal('make_universe: centered in the box (%d)' % q, st, eq(add(g[0][0][q], g[1][0][q]), mul(R(2), half[q])))
            w.goal('make_universe: no total momentum (%d)' % q, st, eq(add(g[0][1][q], g[1][1][q]), R(0)))
            w.goal('make_universe: apart by the box (%d)' % q, st, eq(sub(g[1][0][q], g[0][0][q]), sx if q == 0 else R(0)))
        mx = R(1)
        for x in (sx, sy, sz): mx = ite(lt(mx, x), x, mx)
        b = d.get('box', st)
        w.goal('make_universe: box size', st, and_(le(to_real(b), mx), lt(mx, add(to_real(b), R(1)))))

def sections(tier):
    return [('new container', s_ctor), ('append', s_add), ('resize and clear', s_size), ('clock and getters', s_clock), ('comparison', s_equal), ('galaxy', s_galaxy), ('universe', s_universe)]
