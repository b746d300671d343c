"""C04: the engine state is a faithful copy of the bodies; clock, step counter and buffers are plain stores."""
from contracts.englib import *
from contracts.c02 import ENG

HARNESS = 'c04.cpp'
BOUNDED = ['number of buffers made by one create_buffers call: 0..4 symbolically, up to 40 concretely; destruction and repeated init concretely, under the address sanitizer']

def ybuf(w, e, cls):
    y = w.vcall(e, cls, 'get_y', [])
    return y, w.buf_data(y)
def frames(w, S, what, A, N, keep, st=None):
    st = st or w.st
    for f, n in (('vrt', 3), ('vel', 3), ('mass', 1)):
        if f in keep: unchanged(w, S, '%s: %s' % (what, f), Ptr(A[f], 0), arr('D_' + f), mul(N, I(n)), st)

def s_init(cls):
    def sec(S):
        w = S.world(); N = w.N()
        e, d, A = w.engine(cls, N, ENG[cls]())
        sat_check(w, S, cls)
        S.target(base_name(w.cx.dem(w.vfn(cls, 'init'))))
        w.goal('%s::init succeeds' % cls, w.st, eq(b2i(w.init_ok), I(1)))
        ps = w.vcall(e, cls, 'problem_size', [])
        w.goal('%s::problem_size is six per body' % cls, w.st, eq(ps, mul(N, I(6))))
        y, yd = ybuf(w, e, cls)
        sz = w.call1('nbody_engine_simple::smemory::size() const', [y])
        w.goal('%s: state buffer holds 6N values' % cls, w.st, eq(sz, mul(N, I(48))))
        i, st = with_index(w, N)
        for q in range(3):
            w.goal('%s::init: position component %d' % (cls, q), st, eq(w.rd(yd, add(i, mul(N, I(q))), st), arr('D_vrt')(add(mul(i, I(3)), I(q)))))
            w.goal('%s::init: velocity component %d' % (cls, q), st, eq(w.rd(yd, add(i, mul(N, I(3 + q))), st), arr('D_vel')(add(mul(i, I(3)), I(q)))))
        frames(w, S, 'init', A, N, ('vrt', 'vel', 'mass'))
        clock(w, S, cls, e, d, 'after init', var('D_time', 'R'), var('D_step', 'I'))
    return sec
def b2i(v):
    return v if getattr(v, 'sort', 'I') != 'B' else ite(v, I(1), I(0))
def clock(w, S, cls, e, d, what, t, s):
    w.goal('%s: time %s' % (cls, what), w.st, eq(w.vcall(e, cls, 'get_time', []), t))
    w.goal('%s: step %s' % (cls, what), w.st, eq(w.vcall(e, cls, 'get_step', []), s))
    w.goal('%s: time of the bodies %s' % (cls, what), w.st, eq(w.call1('nbody_data::get_time() const', [d]), t))
    w.goal('%s: step of the bodies %s' % (cls, what), w.st, eq(w.call1('nbody_data::get_step() const', [d]), s))

def s_get(cls):
    def sec(S):
        # arbitrary state, written back to the bodies or to another container of the same size
        for other, again in ((False, False), (True, False), (False, True), (True, True)):
            w = S.world(); N = w.N()
            e, d, A = w.engine(cls, N, ENG[cls]())
            y, yd = ybuf(w, e, cls)
            if again:   # the same was asked before, with other contents of the state and of the bodies
                t, B = w.data(N, 'T') if other else (d, A)
                w.vcall(e, cls, 'get_data', [t])
                for f in ('vrt', 'vel'):
                    if not other: w.st.mem[B[f].id] = (('X', default_base('D_' + f)),)
            yd.r.base = default_base('Y'); yd.r.meta['elem'] = DOUBLE; w.st.mem.pop(yd.r.id, None)
            if not again: t, B = w.data(N, 'T') if other else (d, A)
            w.vcall(e, cls, 'get_data', [t])
            S.target(base_name(w.cx.dem(w.vfn(cls, 'get_data'))))
            what = '%s::get_data%s%s' % (cls, ' into other bodies' if other else '', ', asked again' if again else '')
            i, st = with_index(w, N)
            for q in range(3):
                w.goal('%s: position component %d' % (what, q), st, eq(w.rd(Ptr(B['vrt'], 0), add(mul(i, I(3)), I(q)), st), arr('Y')(add(i, mul(N, I(q))))))
                w.goal('%s: velocity component %d' % (what, q), st, eq(w.rd(Ptr(B['vel'], 0), add(mul(i, I(3)), I(q)), st), arr('Y')(add(i, mul(N, I(3 + q))))))
            frames(w, S, what, A, N, ('vrt', 'vel', 'mass') if other else ('mass',))
            unchanged(w, S, what + ': state', yd, arr('Y'), mul(N, I(6)), w.st)
            if other: unchanged(w, S, what + ': mass of the target', Ptr(B['mass'], 0), arr('T_mass'), N, w.st)
            clock(w, S, cls, e, d, 'after get_data', var('D_time', 'R'), var('D_step', 'I'))
        # round trip
        w = S.world(); N = w.N()
        e, d, A = w.engine(cls, N, ENG[cls]())
        t, B = w.data(N, 'T')
        w.vcall(e, cls, 'get_data', [t])
        i, st = with_index(w, N)
        for f in ('vrt', 'vel'):
            for q in range(3):
                k = add(mul(i, I(3)), I(q))
                w.goal('%s: init then get_data reproduces %s, component %d' % (cls, f, q), st, eq(w.rd(Ptr(B[f], 0), k, st), arr('D_' + f)(k)))
    return sec

def s_clock(cls):
    def sec(S):
        w = S.world(); N = w.N()
        e, d, A = w.engine(cls, N, ENG[cls]())
        dt, t = var('dt', 'R'), var('t', 'R'); s = w.N('s', 0)
        w.vcall(e, cls, 'advise_time', [w.dref(dt)])
        for m in ('advise_time', 'set_time', 'set_step', 'get_time', 'get_step'): S.target(base_name(w.cx.dem(w.vfn(cls, m))))
        clock(w, S, cls, e, d, 'after advise_time', add(var('D_time', 'R'), dt), add(var('D_step', 'I'), I(1)))
        w.vcall(e, cls, 'set_time', [t])
        clock(w, S, cls, e, d, 'after set_time', t, add(var('D_step', 'I'), I(1)))
        w.vcall(e, cls, 'set_step', [s])
        clock(w, S, cls, e, d, 'after set_step', t, s)
        w.vcall(e, cls, 'advise_time', [w.dref(dt)])
        clock(w, S, cls, e, d, 'after a second advise_time', add(t, dt), add(s, I(1)))
        frames(w, S, 'clock', A, N, ('vrt', 'vel', 'mass'))
        y, yd = ybuf(w, e, cls)
        i, st = with_index(w, N)
        for q in range(3): w.goal('%s: the clock does not touch the state (%d)' % (cls, q), st, eq(w.rd(yd, add(i, mul(N, I(q))), st), arr('D_vrt')(add(mul(i, I(3)), I(q)))))
    return sec

def s_buf(cls):
    def sec(S):
        w = S.world(); N = w.N()
        e, d, A = w.engine(cls, N, ENG[cls]())
        n = w.N('n', 0)
        a = w.buffer(e, cls, mul(n, I(8)), 'a'); x = w.buffer(e, cls, mul(n, I(8)), 'x')
        for m in ('create_buffer', 'read_buffer', 'write_buffer'): S.target(base_name(w.cx.dem(w.vfn(cls, m))))
        w.goal('%s: buffer size is what was asked for' % cls, w.st, eq(w.call1('nbody_engine_simple::smemory::size() const', [a]), mul(n, I(8))))
        src = Region('src', mul(n, I(8)), default_base('src'), {'elem': DOUBLE, 'const': True})
        w.vcall(e, cls, 'write_buffer', [a, Ptr(src, 0)])
        unchanged(w, S, '%s::write_buffer: contents are the source' % cls, w.buf_data(a), arr('src'), n, w.st)
        unchanged(w, S, '%s::write_buffer: other buffer' % cls, w.buf_data(x), arr('x'), n, w.st)
        dst = Region('dst', mul(n, I(8)), default_base('dst'), {'elem': DOUBLE})
        w.vcall(e, cls, 'read_buffer', [Ptr(dst, 0), a])
        unchanged(w, S, '%s::read_buffer: what was written' % cls, Ptr(dst, 0), arr('src'), n, w.st)
        unchanged(w, S, '%s::read_buffer: buffer itself' % cls, w.buf_data(a), arr('src'), n, w.st)
        w.vcall(e, cls, 'read_buffer', [Ptr(dst, 0), x])
        unchanged(w, S, '%s::read_buffer of another buffer' % cls, Ptr(dst, 0), arr('x'), n, w.st)
        w.vcall(e, cls, 'read_buffer', [Ptr(dst, 0), NULL])
        unchanged(w, S, '%s::read_buffer of null' % cls, Ptr(dst, 0), arr('x'), n, w.st)
        w.vcall(e, cls, 'write_buffer', [NULL, Ptr(src, 0)])
        unchanged(w, S, '%s::write_buffer to null' % cls, w.buf_data(a), arr('src'), n, w.st)
        y, yd = ybuf(w, e, cls)
        i, st = with_index(w, N)
        for q in range(3): w.goal('%s: buffers do not touch the state (%d)' % (cls, q), st, eq(w.rd(yd, add(i, mul(N, I(q))), st), arr('D_vrt')(add(mul(i, I(3)), I(q)))))
        for k in range(0, 5):
            w = S.world(); N = w.N(); e, d, A = w.engine(cls, N, ENG[cls]())
            n = w.N('n', 0)
            out = Region('vec', I(24), None, {})
            w.call1('nbody_engine::create_buffers(unsigned long, unsigned long)', [Ptr(out, 0), e, mul(n, I(8)), I(k)])
            S.target('nbody_engine::create_buffers')
            b0 = load(w.cx, w.st, Ptr(out, 0), PTR); b1 = load(w.cx, w.st, Ptr(out, 8), PTR)
            seen = []
            if k == 0:
                w.goal('no buffers asked, none made', w.st, TRUE if (b0 == b1 or (isinstance(b0, Ptr) and b0.r is b1.r and b0.o == b1.o)) else FALSE)
                continue
            w.goal('%d buffers' % k, w.st, eq(sub(b1.o, b0.o), I(8 * k)))
            for q in range(k):
                b = load(w.cx, w.st, Ptr(b0.r, add(b0.o, I(8 * q))), PTR)
                w.goal('buffer %d of %d: size' % (q, k), w.st, eq(w.call1('nbody_engine_simple::smemory::size() const', [b]), mul(n, I(8))))
                seen.append(w.buf_data(b).r.id)
            w.goal('%d buffers are distinct' % k, w.st, TRUE if len(set(seen)) == k else FALSE)
    return sec

METHODS = ('init', 'get_data', 'get_y', 'problem_size', 'get_time', 'set_time', 'get_step', 'set_step', 'advise_time', 'create_buffer', 'free_buffer', 'read_buffer', 'write_buffer')
PARTS = [('init', s_init), ('get_data', s_get), ('clock', s_clock), ('buffers', s_buf)]
def other(cls):
    def sec(S):
        w = S.world()
        if all(w.vfn(cls, m) == w.vfn('nbody_engine_simple', m) for m in METHODS if m != 'init'):
            for m in METHODS:
                if m != 'init': S.record('%s::%s is %s' % (cls, m, base_name(w.cx.dem(w.vfn(cls, m)))), 'proved', 'vtable')
            s_init(cls)(S)
        else:
            for n, f in PARTS: f(cls)(S)
    return sec
def sections(tier):
    return [('simple ' + n, f('nbody_engine_simple')) for n, f in PARTS] + [(c.replace('nbody_engine_', ''), other(c)) for c in ENG if c != 'nbody_engine_simple']
