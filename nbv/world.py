"""Building symbolic pre-states by running the real constructors and getters."""
from .symex import *
from .symex import _read
from . import models, loops
from .terms import *
from . import terms as tm
from .prove import Prover

MAXN = 1 << 28     # bodies: 6*N state indices fit 31 bits, sizes in bytes do not (see DESIGN, assumptions)

class World:
    def __init__(self, mod, timeout=10000):
        self.m = mod
        self.cx = Ctx(mod, Prover(timeout))
        models.install(self.cx)
        self.ex = Exec(self.cx)
        self.st = State()
        self.cx.world = self
        # dynamic initialisers of namespace-scope variables run before anything else
        for f in sorted(mod.funcs):
            if f.startswith('_GLOBAL__sub_I'): self.call1(f, [])
    # -------------------------------------------------------------- calls
    def call(self, name, args, st=None):
        """run a real function (looked up by mangled or demangled name); list of (state, value)"""
        st = st if st is not None else self.st
        mg = name if name in self.m.funcs else self.cx.fn(name)
        return self.ex.call_function(mg, args, st.copy(), 0)
    def call1(self, name, args):
        r = self.call(name, args)
        if len(r) != 1: raise Unsupported('%s: %d outcomes that do not merge' % (name, len(r)))
        self.st = r[0][0]
        return r[0][1]
    def vtable(self, cls):
        g = '_ZTV%d%s' % (len(cls), cls)
        if g not in self.m._gtext: raise Unsupported('class %s has no vtable here' % cls)
        t, v, k = self.m.global_init(g)
        out = []
        for et, ev in v[1][0][1][1]:
            out.append(ev[1] if ev[0] == 'glob' else None)
        return out
    def vfn(self, cls, method):
        """the function the class's vtable holds for a method name"""
        for g in self.vtable(cls):
            if g is None: continue
            g = self.m.aliases.get(g, g)
            b = base_name(self.cx.dem(g))
            if b.split('::')[-1] == method: return g
        raise Unsupported('no virtual %s::%s' % (cls, method))
    def vcall(self, obj, cls, method, args):
        return self.call1(self.vfn(cls, method), [obj] + args)
    def ctor(self, cls, args=(), nargs=None):
        """allocate an object and run its complete constructor"""
        c = [k for k, v in self.m.dem.items() if k in self.m.funcs and base_name(v) == '%s::%s' % (cls, cls.split('::')[-1])]
        c = [k for k in c if len(self.m.funcs[k].params) == len(args) + 1]
        if not c: raise Unsupported('constructor of %s' % cls)
        c.sort(key=lambda k: ('C2' in k, k))
        r = Region('obj:' + cls, None, None, {'cls': cls})
        self.call1(c[0], [Ptr(r, 0)] + list(args))
        return Ptr(r, 0)
    def dref(self, v, ty=None):
        """a fresh cell holding v, for by-reference parameters"""
        r = Region('cell', I(8), None, {})
        self.st.mem[r.id] = (('C', {0: (v, 8)}),)
        return Ptr(r, 0)
    def cell(self, p, ty=DOUBLE, st=None):
        return load(self.cx, st or self.st, p, ty)
    def array(self, name, size, elem=None, const_=False):
        r = Region(name, size, default_base(name), {'elem': elem or DOUBLE})
        if const_: r.meta['const'] = True
        return Ptr(r, 0)
    def fact(self, c): self.st.fact(c)
    # -------------------------------------------------------------- symbolic nbody_data
    def offset_of(self, getter, ret_ptr=False):
        """offset of the field a getter returns, found by running the getter on a probe object"""
        off = []
        def base(cx, st, o, ty, size):
            off.append((int(cval(o)), ty, size))
            if ty.k == 'ptr': return Ptr(Region('probe.%d' % cval(o)), 0)
            if ty.k == 'int': return fresh('probe', 'I')
            return fresh('probe', 'R')
        r = Region('probe', None, base)
        self.cx.mute += 1
        try: self.call(getter, [Ptr(r, 0)], State())
        finally: self.cx.mute -= 1
        if not off: raise Unsupported('getter %s reads nothing' % getter)
        return off[0][0]
    def data_layout(self):
        if hasattr(self, '_dl'): return self._dl
        d = {}
        for f, g in (('count', 'nbody_data::get_count() const'), ('time', 'nbody_data::get_time() const'), ('step', 'nbody_data::get_step() const'),
                     ('box', 'nbody_data::get_box_size() const'), ('vrt', 'nbody_data::get_vertites() const'), ('vel', 'nbody_data::get_velosites() const'),
                     ('mass', 'nbody_data::get_mass() const'), ('color', 'nbody_data::get_color() const')):
            d[f] = self.offset_of(g)
        self._dl = d
        return d
    def data(self, N, tag='D', arrays=True):
        """an nbody_data with N bodies and arbitrary contents; returns (pointer, dict of array regions)"""
        L = self.data_layout()
        st = self.st
        r = Region(tag, None, None, {'cls': 'nbody_data'})
        cells = {}
        A = {}
        for f, es, ety in (('vrt', 24, DOUBLE), ('vel', 24, DOUBLE), ('mass', 8, DOUBLE), ('color', 16, FLOAT)):
            a = Region('%s.%s' % (tag, f), mul(I(N), I(es)), default_base('%s_%s' % (tag, f)), {'elem': ety})
            A[f] = a
            o = L[f]
            cells[o] = (Ptr(a, 0), 8); cells[o + 8] = (Ptr(a, mul(I(N), I(es))), 8); cells[o + 16] = (Ptr(a, mul(I(N), I(es))), 8)
        cells[L['count']] = (I(N), 8)
        step = var(tag + '_step', 'I'); box = var(tag + '_box', 'I')
        st.fact(and_(ge(step, I(0)), lt(step, I(1 << 62)))); st.fact(and_(ge(box, I(0)), lt(box, I(1 << 62))))
        cells[L['time']] = (var(tag + '_time', 'R'), 8); cells[L['step']] = (step, 8); cells[L['box']] = (box, 8)
        st.mem[r.id] = (('C', cells),)
        return Ptr(r, 0), A
    def N(self, name='N', lo=1, mult=1):
        n = var(name, 'I')
        if mult == 1:
            self.st.fact(and_(ge(n, I(lo)), lt(n, I(MAXN)))); return n
        self.st.fact(and_(ge(n, I(1)), lt(n, I(MAXN // mult))))
        return mul(n, I(mult))
    # -------------------------------------------------------------- engines
    def engine(self, cls, N, args=(), init=True, step=None):
        d, A = self.data(N)
        e = self.ctor(cls, args)
        if init:
            ok = self.vcall(e, cls, 'init', [d])
            self.init_ok = ok
        return e, d, A
    def buffer(self, e, cls, nbytes, name):
        """engine->create_buffer(nbytes) followed by arbitrary contents"""
        b = self.vcall(e, cls, 'create_buffer', [nbytes])
        dp = self.buf_data(b)
        dp.r.base = default_base(name); dp.r.meta['elem'] = DOUBLE; dp.r.name = name
        self.st.mem.pop(dp.r.id, None)
        return b
    def buf_data(self, b, st=None):
        dem = 'nbody_engine_simple::smemory::data()'
        old = self.st
        if st is not None: self.st = st
        try: return self.call('nbody_engine_simple::smemory::data()', [b])[0][1]
        finally: self.st = old
    def rd(self, p, idx, st=None, ty=DOUBLE):
        st = st or self.st
        es = self.m.sizeof(ty)
        lg = log(st, p.r)
        return _read(self.cx, st, p.r, len(lg) - 1, add(p.o, mul(I(idx), I(es))), ty, es)
    # -------------------------------------------------------------- goals
    def goal(self, name, st, g, extra=()):
        return self.cx.oblige('post', name, st, g, extra)
