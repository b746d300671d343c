"""C13: reading a recording: index, seeking, reading."""
from contracts.qtlib import *
from contracts import c12
from contracts.c12 import fn, val, qstring, datname, BASE, zero
HARNESS = 'stream.cpp'
HARNESS_TUS = c12.HARNESS_TUS
HARNESS_GROUPS = ['read']
EXTRACT = c12.EXTRACT
ASSUME = ['QFile, QTextStream and QString by their documentation: reading gives the bytes of the file at the current position, a line is split and its numbers parsed exactly; std::vector and std::map by their standard contract']
MAX = (1 << 64) - 1
U8 = Ty('int', 8)
def fill(c, name, dst, n, pos, r):
    """the bytes of the file land in the destination"""
    f, a = None, []
    for k in ('.dat', '.col', '.mass'):
        if name and name[-1] == k: f = k[1:]
    if f == 'dat':
        if len(name) != 3 or not isinstance(name[1], tuple): raise Unsupported('name of a data file')
        a = [name[1][1]]
    if f is None: raise Unsupported('name of a file that is read')
    old = c.st.mem.get(dst.r.id, ()); o0 = dst.o; reg = dst.r; g = fresh('cut', 'I')
    def x(cx, st, off_, ty, size):
        inr = and_(ge(off_, o0), le(add(off_, I(size)), add(o0, n))); d = cx.decide(st, inr)
        if d is False: return None
        if d is None: raise Unsupported('which bytes were read')
        p = add(pos, sub(off_, o0))
        return vite(eq(r, n), app('file_' + f, a + [p], 'R'), app('cut_' + f, a + [p, g], 'R'))
    c.st.mem[reg.id] = old + (('X', x),)
def item(n, i): return add(mul(i, I(ISZ[0])), I(n))
ISZ = [40]
class Reader:
    def __init__(self, S, opened=True, file_n=None, cols=None):
        w = S.world(); self.w = w; self.q = Qt(w); self.q.fill = fill; ISZ[0] = off(w, 'i_size')
        w.cx.elem_sizes = dict(w.cx.elem_sizes); w.cx.elem_sizes['nbody_data_stream_reader::data::item'] = (ISZ[0], None)
        w.cx.elem_layout = {'nbody_data_stream_reader::data::item': [(off(w, 'i_' + f), DOUBLE if f == 'time' else I64) for f in ('frame', 'step', 'time', 'file_n', 'pos')]}
        self.s = w.ctor('nbody_data_stream_reader', []); self.d = load(w.cx, w.st, Ptr(self.s.r, I(off(w, 'r_d'))), PTR)
        if not isinstance(self.d, Ptr): raise Unsupported('reader object')
        self.kf = (self.d.r.id, off(w, 'r_file'))
        if self.kf not in w.st.ghost['qf']: raise Unsupported('file of the reader')
        self.nf = w.N('frames', 0); w.fact(lt(self.nf, I(1 << 50))); self.cur = var('cur', 'I'); self.cnt = w.N('body_count', 0); w.fact(lt(self.cnt, I(1 << 40)))
        self.fr = self.frames('F', self.nf); st = w.st
        self.setvec(st, self.fr, self.nf)
        for n, v, sz in (('cur', self.cur, 8), ('count', self.cnt, 8), ('coord', I(8), 8), ('box', var('boxsz', 'I'), 8), ('base', qstr(BASE), 8)): loops.set_cell(st, self.d.r, off(w, 'r_' + n), v, sz)
        w.fact(and_(ge(var('boxsz', 'I'), I(0)), lt(var('boxsz', 'I'), I(1 << 62))))
        if cols is not None:
            for n in ('col', 'mass'): loops.set_cell(st, self.d.r, off(w, 'r_' + n), I(1 if cols else 0), 1)
        self.pos = var('fpos', 'I'); w.fact(and_(ge(self.pos, I(0)), lt(self.pos, I(1 << 61))))
        g = dict(st.ghost['qf'])
        if opened: w.fact(and_(ge(self.cur, I(0)), lt(self.cur, self.nf))); g[self.kf] = (datname(self.it('file_n', self.cur)), READ, self.pos)
        else: w.fact(and_(ge(self.cur, I(0)), le(self.cur, I(MAX)), or_(lt(self.cur, self.nf), eq(self.cur, I(MAX))))); g[self.kf] = (BASE + ('.old',), 0, I(0))
        self.filen = I(MAX) if file_n is None else self.it('file_n', self.cur)
        loops.set_cell(st, self.d.r, off(w, 'r_file_n'), self.filen, 8)
        st.ghost['qf'] = g; st.ghost['ev'] = ()
    def frames(self, tag, n):
        def base(cx, st, o, ty, size):
            if ty.k == 'double': return app('item_%s_r' % tag, [o], 'R')
            t = app('item_%s' % tag, [o], 'I'); st.fact(and_(ge(t, I(0)), lt(t, I(1 << 62)))); return t
        return Region('frames', mul(n, I(ISZ[0])), base, {'heap': True, 'vec': True})
    def setvec(self, st, r, n):
        o = off(self.w, 'r_frames'); e = mul(n, I(ISZ[0]))
        for k, v in ((0, Ptr(r, 0)), (8, Ptr(r, e)), (16, Ptr(r, e))): loops.set_cell(st, self.d.r, o + k, v, 8)
    def vec(self, st):
        o = off(self.w, 'r_frames'); return [self.resolve(load(self.w.cx, st, Ptr(self.d.r, I(o + k)), PTR), st) for k in (0, 8)]
    def resolve(self, v, st):
        while type(v).__name__ == 'PIte':
            if self.w.cx.pv.valid(st.hyps(), v.c): v = v.a
            elif self.w.cx.pv.valid(st.hyps(), not_(v.c)): v = v.b
            else: break
        return v
    def it(self, f, i, tag='F'):
        o = item(off(self.w, 'i_' + f), i); return app('item_%s_r' % tag, [o], 'R') if f == 'time' else app('item_%s' % tag, [o], 'I')
    def get(self, n, st, ty=I64): return load(self.w.cx, st, Ptr(self.d.r, I(off(self.w, 'r_' + n))), ty)
    def same_frames(self, st, what):
        b, e = self.vec(st); self.w.goal(what + ': the index is kept', st, and_(TRUE if isinstance(b, Ptr) and isinstance(e, Ptr) and b.r is e.r and b.r is self.fr else FALSE, eq(e.o, mul(self.nf, I(ISZ[0]))) if isinstance(e, Ptr) else FALSE))
def at_frame(X, st, f, what, pos=True):
    """the file is open at frame f"""
    n, md, p = st.ghost['qf'][X.kf]; w = X.w
    w.goal(what + ': the part of the frame is open for reading', st, and_(same_text(n, datname(X.it('file_n', f))), TRUE if md & READ else FALSE))
    if pos: w.goal(what + ': at the position of the frame', st, eq(p, X.it('pos', f)))
    m = X.get('file_n', st); w.goal(what + ': the remembered part is the open one', st, or_(eq(m, I(MAX)), eq(m, I(-1)), eq(m, X.it('file_n', f))))
    w.goal(what + ': current frame', st, eq(X.get('cur', st), f))
STATES = ((True, None), (False, None))

def s_seek(opened, file_n):
    def sec(S):
        X = Reader(S, opened, file_n); w = X.w; f = w.N('frame', 0); w.fact(le(f, I(MAX))); S.target('nbody_data_stream_reader::seek'); sat_check(w, S, 'seek'); kinds = set()
        before = w.st.ghost['qf'][X.kf]
        for st, v in w.call(fn(w, 'nbody_data_stream_reader::seek'), [X.s, f]):
            ok = zero(v); evs = st.ghost['ev']; n, md, p = st.ghost['qf'][X.kf]; X.same_frames(st, 'seek')
            good = w.cx.decide(st, ok)
            if good is None:
                s1 = st.copy(); s1.assume(ok); s2 = st.copy(); s2.assume(not_(ok)); cases = [(s1, True), (s2, False)]
            else: cases = [(st, good)]
            for s, g in cases:
                kinds.add(g)
                if g: w.goal('seek: only to a frame that is there', s, lt(f, X.nf)); at_frame(X, s, f, 'seek')
                else:
                    bad = [not_(e[4]) for e in evs if e[0] == 'seek'] + [TRUE for e in evs if e[0] == 'open' and not e[5 - 1]]
                    w.goal('seek: a failure has a reason', s, or_(ge(f, X.nf), *bad))
                    same = and_(same_text(n, before[0]), TRUE if md == before[1] else FALSE, eq(p, before[2]), eq(X.get('cur', s), X.cur))
                    w.goal('seek: a failure leaves the reader where it was or without a file', s, TRUE if md == 0 else same)
                    w.goal('seek: beyond the end nothing changes', s, implies(ge(f, X.nf), same))
            w.goal('seek: the data files are only read', st, TRUE if all(e[0] not in ('write', 'text') and (e[0] != 'open' or e[3] == READ) for e in evs) else FALSE)
        w.goal('seek: can succeed', w.st, TRUE if True in kinds else FALSE)
    return sec

def s_read(opened, file_n, cols, last=None):
    def sec(S):
        X = Reader(S, opened, file_n, cols); w = X.w; N = w.N('N', 0); w.fact(lt(N, I(1 << 40))); d = Data(w, N); S.target('nbody_data_stream_reader::read', 'nbody_data_stream_reader::data::read_colors', 'nbody_data_stream_reader::data::read_masses'); kinds = set(); sz = mul(N, I(24))
        if last is not None: w.fact(eq(add(X.cur, I(1)), X.nf) if last else lt(add(X.cur, I(1)), X.nf))
        sat_check(w, S, 'read'); part = X.it('file_n', X.cur)
        for st, v in w.call(fn(w, 'nbody_data_stream_reader::read'), [X.s, d.p]):
            ok = zero(v); evs = st.ghost['ev']; X.same_frames(st, 'read'); G = lambda n, c: w.goal('read: ' + n, st, c); V = lambda b: TRUE if b else FALSE
            rd = [e for e in evs if e[0] == 'read' and e[1] == X.kf]
            G('only into bodies of the recorded count', implies(ok, eq(N, X.cnt))); G('nothing is touched otherwise', implies(ne(N, X.cnt), V(not evs)))
            full = [eq(e[6], e[4]) for e in rd]
            G('two complete blocks', implies(ok, and_(V(len(rd) == 2), *full)))
            short = [not_(x) for x in full]; G('a failure has a reason', or_(ok, ne(N, X.cnt), V(not opened), *short))
            if not w.cx.pv.valid(st.hyps(), not_(ok)):
                kinds.add(1); s = st.copy(); s.assume(ok); i = fresh('i', 'I'); s.assume(and_(ge(i, I(0)), lt(i, N)))
                for f, o in (('vrt', I(0)), ('vel', sz)):
                    for q_ in range(3): w.goal('read: %s %d is that of the frame' % (f, q_), s, eq(d.at(f, i, q_, s), app('file_dat', [part, add(add(X.pos, o), add(mul(i, I(24)), I(8 * q_)))], 'R')))
                s = st.copy(); s.assume(ok)
                w.goal('read: time of the frame', s, eq(d.get('time', s), X.it('time', X.cur))); w.goal('read: step of the frame', s, eq(d.get('step', s), X.it('step', X.cur)))
                d.arrays_of(N, s, 'read'); n, md, p = s.ghost['qf'][X.kf]
                nxt = add(X.cur, I(1)); sk = [e for e in evs if e[0] == 'seek']; op = [e for e in evs if e[0] == 'open' and e[1] == X.kf]
                moved = and_(lt(nxt, X.nf), *([e[4] for e in sk] + [V(e[4]) for e in op]))
                s1 = s.copy(); s1.assume(moved)
                if not w.cx.pv.valid(s1.hyps(), FALSE): at_frame(X, s1, nxt, 'read, then the next frame')
                s2 = s.copy(); s2.assume(not_(moved))
                if not w.cx.pv.valid(s2.hyps(), FALSE):
                    w.goal('read: otherwise the current frame stays', s2, eq(X.get('cur', s2), X.cur))
                    if md: w.goal('read: and its file stays open behind the frame', s2, and_(same_text(n, datname(part)), eq(p, add(X.pos, mul(I(2), sz)))))
                for fl, f, ext, by, m_ in (('col', 'color', '.col', 16, 4), ('mass', 'mass', '.mass', 8, 1)):
                    es = [e for e in evs if e[0] == 'read' and e[1] != X.kf and same_text(e[2], BASE + (ext,)) is TRUE]; now = X.get(fl, s, U8)
                    if cols: w.goal('read: %s are read once' % f, s, V(not es)); w.goal('read: %s count as read' % f, s, ne(now, I(0))); continue
                    got = and_(V(len(es) == 1), and_(V(isinstance(es[0][3], Ptr) and es[0][3].r is d.A[f] and cval(es[0][3].o) == 0), eq(es[0][4], mul(N, I(by))), eq(es[0][6], es[0][4])) if es else FALSE)
                    w.goal('read: %s count as read when they are' % f, s, implies(ne(now, I(0)), got)); w.goal('read: %s that are read count as such' % f, s, implies(got, ne(now, I(0))))
                    op2 = [e for e in evs if e[0] == 'open' and same_text(e[2], BASE + (ext,)) is TRUE]
                    w.goal('read: %s are looked for' % f, s, V(len(op2) == 1 and op2[0][3] == READ)); w.goal('read: %s are read if the file is there' % f, s, V(bool(es)) if op2 and op2[0][4] else TRUE)
                    s3 = s.copy(); s3.assume(got); s3.assume(and_(ge(i, I(0)), lt(i, N)))
                    if not w.cx.pv.valid(s3.hyps(), FALSE):
                        es_ = by // m_
                        for q_ in range(m_): w.goal('read: %s %d from the file' % (f, q_), s3, eq(d.at(f, i, q_, s3), app('file_' + ext[1:], [add(mul(i, I(by)), I(es_ * q_))], 'R')))
                if cols: d.keep(N, s, 'read', ('mass', 'color', 'radius'))
                else: d.keep(N, s, 'read', ('radius',))
            else: kinds.add(0)
            G('the files are only read', V(all(e[0] not in ('write', 'text') and (e[0] != 'open' or e[3] == READ) for e in evs)))
        w.goal('read: can succeed when the file is open', w.st, TRUE if (1 in kinds) == opened else FALSE)
    return sec
def s_null(S):
    X = Reader(S); w = X.w; S.target('nbody_data_stream_reader::read', 'nbody_data_stream_reader getters')
    for st, v in w.call(fn(w, 'nbody_data_stream_reader::read'), [X.s, NULL]): w.goal('reading into nothing fails', st, ne(v, I(0))); w.goal('and touches no file', st, TRUE if not st.ghost['ev'] else FALSE)
    call = lambda f: w.call1(fn(w, 'nbody_data_stream_reader::' + f), [X.s]); last = sub(X.nf, I(1))
    w.goal('frame count', w.st, eq(call('get_frame_count'), X.nf)); w.goal('body count', w.st, eq(call('get_body_count'), X.cnt)); w.goal('coord size', w.st, eq(call('get_coord_size'), I(8))); w.goal('box size', w.st, eq(call('get_box_size'), to_real(var('boxsz', 'I')))); w.goal('current frame', w.st, eq(call('get_current_frame'), X.cur))
    for g, f, z in (('get_steps_count', 'step', I(0)), ('get_max_time', 'time', R(0)), ('get_last_file_n', 'file_n', I(0))):
        for st, v in w.call(fn(w, 'nbody_data_stream_reader::' + g), [X.s]): w.goal(g + ': that of the last frame', st, eq(v, ite(eq(X.nf, I(0)), z, X.it(f, last))))
    for st, v in w.call(fn(w, 'nbody_data_stream_reader::close'), [X.s]): closed(X, st, 'close')
def closed(X, st, what):
    w = X.w; b, e = X.vec(st)
    w.goal(what + ': no frames', st, TRUE if isinstance(b, NullT) and isinstance(e, NullT) else ptr_eq(b, e))
    for n in ('coord', 'count', 'box'): w.goal('%s: %s of an earlier recording is forgotten' % (what, n), st, eq(X.get(n, st), I(0)))
    for n in ('col', 'mass'): w.goal('%s: %s of an earlier recording is forgotten' % (what, n), st, eq(X.get(n, st, U8), I(0)))
    c = X.get('cur', st); w.goal(what + ': no current frame', st, or_(eq(c, I(MAX)), eq(c, I(-1)))); m = X.get('file_n', st); w.goal(what + ': no remembered part', st, or_(eq(m, I(MAX)), eq(m, I(-1))))
    w.goal(what + ': no open file', st, TRUE if not st.ghost['qf'][X.kf][1] else FALSE)

# ---- the index
def text_models(w, X):
    m = lambda rx, f: w.cx.models.insert(0, (re.compile(rx), f))
    def line(c):
        k = fresh('line', 'I'); ln = (('sym', 'line', id(k)),); X.line = ln; qset(c.cx, c.st, c.args[0], ln); c.st.ghost['lines'] = c.st.ghost.get('lines', 0) + 1
    m(r'^QTextStream::readLine', line); m(r'^QTextStream::atEnd\(\) const$', lambda c: fresh('atEnd', 'B'))
    def starts(c):
        t, p = qget(c.cx, c.st, c.args[0]), qget(c.cx, c.st, c.args[1])
        return var('starts_%s_%s' % (nm(t), p[0]), 'B')
    m(r'^QString::startsWith\(QString const&', starts)
    def startc(c):
        t = qget(c.cx, c.st, c.args[0]); v = cval(c.args[1])
        if v is None: raise Unsupported('startsWith')
        return var('starts_%s_%s' % (nm(t), chr(int(v))), 'B')
    m(r'^QString::startsWith\(QChar', startc)
    def split(c):
        t = qget(c.cx, c.st, c.args[1]); a = c.args[2]
        if isinstance(a, Ptr): sep = qget(c.cx, c.st, a)[0]
        else: sep = chr(int(cval(a)))
        r = Region('list', None, None, {'qlist': (t, sep)}); store(c.cx, c.st, c.args[0], Ptr(r, 0), PTR)
    m(r'^QString::split\((QString const&|QChar|char),', split)
    def lst(c):
        v = load(c.cx, c.st, c.args[0], PTR)
        if not isinstance(v, Ptr) or 'qlist' not in v.r.meta: raise Unsupported('string list')
        return v.r.meta['qlist'], v
    def size(c): (t, sep), _ = lst(c); v = var('parts_%s_%r' % (nm(t), sep), 'I'); c.st.fact(and_(ge(v, I(1)), lt(v, I(1 << 30)))); return v
    m(r'^QList<QString>::(size|count|length)\(\) const$', size)
    def elem(c):
        (t, sep), _ = lst(c); i = cval(c.args[1])
        if i is None: raise Unsupported('list index')
        c.cx.oblige('contract', 'parts of a line exist when they are used', c.st, lt(I(int(i)), var('parts_%s_%r' % (nm(t), sep), 'I')))
        r = Region('part'); c.st.mem[r.id] = (('C', {0: (qstr((('sym', nm(t), sep, int(i)),)), 8)}),); return Ptr(r, 0)
    m(r'^QList<QString>::(operator\[\]|at|first|value)\(', elem); m(r'^QList<QString>::~QList|^QStringList::~', lambda c: None)
    def num(kind, sort):
        def f(c):
            t = qget(c.cx, c.st, c.args[0]); n = nm(t); ok = var('%s_ok_%s' % (kind, n), 'B'); v = var('%s_%s' % (kind, n), sort)
            if isinstance(c.args[1], Ptr): store(c.cx, c.st, c.args[1], ite(ok, I(1), I(0)), U8)
            if kind == 'u': c.st.fact(and_(ge(v, I(0)), lt(v, I(1 << 64))))
            if kind == 's': c.st.fact(and_(ge(v, I(-(1 << 63))), lt(v, I(1 << 63))))
            return v
        return f
    m(r'^QString::toU?Long(Long)?\(bool\*, int\) const$', lambda c: num('u' if 'toU' in c.cx.dem(c.name) else 's', 'I')(c)); m(r'^QString::toDouble\(bool\*\) const$', num('r', 'R'))
    def eqs(c):
        t = qget(c.cx, c.st, c.args[0]); l = const_string(c.cx, c.args[1])
        if l is None: raise Unsupported('string comparison')
        v = var('is_%s_%s' % (nm(t), l), 'B'); done = c.st.ghost.get('lits', ())
        for o in done:
            if o[0] == nm(t) and o[1] != l: c.st.fact(not_(and_(v, var('is_%s_%s' % o, 'B'))))
        c.st.ghost['lits'] = done + ((nm(t), l),)
        return not_(v) if '!=' in c.cx.dem(c.name) else v
    m(r'^QString::operator[=!]=\(char const\*\) const$|^operator[=!]=\(QString const&, char const\*\)$', eqs)
    m(r'^std::map<.*>::operator\[\]\(', lambda c: Ptr(Region('mapcell', I(8)), 0)); m(r'^std::map<.*>::clear\(\)', lambda c: None)
    m(r'^std::map<.*>::(map|~map)\(', lambda c: None)
def nm(t): return '_'.join(str(x) for p in parts(t) for x in ((p,) if isinstance(p, str) else p[1:])).replace('\t', 'TAB').replace(' ', 'SP')

def s_header(S):
    """one header line"""
    X = Reader(S); w = X.w; text_models(w, X); S.target('nbody_data_stream_reader::data::parse_header_line')
    names = {'coord': '#coord_size', 'count': '#body_count', 'box': '#box_size'}; old = {n: var('old_' + n, 'I') for n in names}
    for n in names: loops.set_cell(w.st, X.d.r, off(w, 'r_' + n), old[n], 8)
    ln = (('sym', 'L'),)
    for st, v in w.call(fn(w, 'nbody_data_stream_reader::data::parse_header_line'), [X.d, qstring(w, ln)]):
        two = eq(var('parts_L_%r' % ' ', 'I'), I(2)); p0 = nm((('sym', 'L', ' ', 0),)); p1 = nm((('sym', 'L', ' ', 1),)); okv = var('u_ok_' + p1, 'B'); s = st.copy(); L = list(names.values())
        for a in range(3):
            for b in range(a): s.fact(not_(and_(var('is_%s_%s' % (p0, L[a]), 'B'), var('is_%s_%s' % (p0, L[b]), 'B'))))
        for n, lit_ in names.items(): w.goal('header line: %s' % lit_, s, eq(X.get(n, s), ite(and_(two, okv, var('is_%s_%s' % (p0, lit_), 'B')), var('u_' + p1, 'I'), old[n])))
        X.same_frames(s, 'header line'); w.goal('header line: no file is touched', s, TRUE if not s.ghost['ev'] else FALSE)

def s_load(opened, file_n, cols):
    def sec(S):
        X = Reader(S, opened, file_n, cols); w = X.w; cx = w.cx; text_models(w, X); S.target('nbody_data_stream_reader::load', 'nbody_data_stream_reader::close')
        new = (('sym', 'new'),); used = []; hdr = {}
        def header(c):
            t = qget(c.cx, c.st, c.args[1]); c.cx.oblige('contract', 'load: a header line is parsed as one', c.st, and_(TRUE if t == X.line else FALSE, var('starts_%s_#' % nm(t), 'B')))
            for n in ('coord', 'count', 'box'): h = fresh('h', 'I'); c.st.fact(and_(ge(h, I(0)), lt(h, I(1 << 64)))); loops.set_cell(c.st, X.d.r, off(w, 'r_' + n), h, 8)
            c.st.ghost['hdr'] = (1,)
        cx.contracts['nbody_data_stream_reader::data::parse_header_line'] = header
        def seek(c):
            cx.oblige('contract', 'load: goes to the first frame', c.st, eq(c.args[1], I(0))); r = fresh('sk', 'I'); c.st.fact(and_(ge(r, I(-(1 << 31))), lt(r, I(1 << 31)))); c.st.ghost['sought'] = c.st.ghost.get('sought', ()) + (r,); return r
        cx.contracts['nbody_data_stream_reader::seek'] = seek
        X.fr2 = None
        def loop(ex, f, depth, header_, prev, st, env):
            if base_name(cx.dem(f.name)) != 'nbody_data_stream_reader::load': raise Unsupported('loop')
            blocks = f.loops[header_]; used.append(1); phis = [i.res for i in f.blocks[header_].insts if i.op == 'phi']
            evs = st.ghost['ev']; o = [e for e in evs if e[0] == 'open']
            cx.oblige('contract', 'load: the index file is open', st, and_(TRUE if len(o) == 1 and o[0][4] and o[0][3] in (READ, READ | 16) else FALSE, same_text(o[0][2], new + ('.idx',)) if o else FALSE))
            closed(X, st, 'load')
            s = st.copy(); e = dict(env); nf = fresh('nf', 'I'); s.fact(and_(ge(nf, I(0)), lt(nf, I(1 << 50)))); fr = X.frames('G', nf); X.fr2 = (fr, nf); X.setvec(s, fr, nf); H = {}
            for n in ('coord', 'count', 'box'): H[n] = fresh('h', 'I'); s.fact(and_(ge(H[n], I(0)), lt(H[n], I(1 << 64)))); loops.set_cell(s, X.d.r, off(w, 'r_' + n), H[n], 8)
            for p in phis:
                if env[p] is UNDEF: e[p] = fresh('any', 'I')
                elif p in env: raise Unsupported('variable of the index loop')
            s.ghost['ev'] = (); s.ghost['lines'] = 0; s.ghost['hdr'] = (); out = []
            for dest, pr, s2, e2 in loops.fork(ex, f, depth, header_, blocks, s, e):
                k = s2.ghost['lines']; b, en = X.vec(s2); grew = not (isinstance(b, Ptr) and b.r is fr and isinstance(en, Ptr) and cx.pv.valid(s2.hyps(), eq(en.o, mul(nf, I(ISZ[0])))))
                if k == 0:
                    cx.oblige('contract', 'load: the end of the index changes nothing', s2, TRUE if dest != header_ and not grew and not s2.ghost['hdr'] else FALSE); s2.ghost['end'] = 'done'; s2.ghost['H'] = tuple(X.get(n, s2) for n in ('coord', 'count', 'box')); out.append((dest, pr, s2, e2)); continue
                ln = nm(X.line); hash_ = var('starts_%s_#' % ln, 'B'); four = eq(var('parts_%s_%r' % (ln, '\t'), 'I'), I(4)); P = [nm((('sym', ln, '\t', i),)) for i in range(4)]
                oks = and_(*[var('%s_ok_%s' % (kd, P[i]), 'B') for i, kd in enumerate('urus')])
                valid = and_(not_(hash_), four, oks)
                cx.oblige('contract', 'load: one line at a time', s2, TRUE if k == 1 else FALSE)
                if dest == header_:
                    if any(type(x).__name__ == 'PIte' for x in (b, en)): raise Unsupported('a list of frames that depends on a condition')
                    cx.oblige('contract', 'load: goes on after a good line only', s2, or_(hash_, valid))
                    if grew:
                        cx.oblige('contract', 'load: a frame for a frame line', s2, not_(hash_)); cx.oblige('contract', 'load: one frame per line', s2, eq(sub(en.o, b.o), mul(add(nf, I(1)), I(ISZ[0]))) if isinstance(en, Ptr) and b.r is en.r else FALSE)
                        for fld, want, ty in (('frame', nf, I64), ('step', var('u_' + P[0], 'I'), I64), ('time', var('r_' + P[1], 'R'), DOUBLE), ('file_n', var('u_' + P[2], 'I'), I64), ('pos', var('s_' + P[3], 'I'), I64)):
                            g = load(cx, s2, Ptr(b.r, item(off(w, 'i_' + fld), nf)), ty); cx.oblige('contract', 'load: %s of the new frame' % fld, s2, eq(g, want) if ty is DOUBLE else eq(imod(sub(g, want), I(1 << 64)), I(0)))
                        i = fresh('i', 'I'); s3 = s2.copy(); s3.assume(and_(ge(i, I(0)), lt(i, nf)))
                        for fld, ty in (('step', I64), ('time', DOUBLE), ('file_n', I64), ('pos', I64)): cx.oblige('contract', 'load: %s of the earlier frames is kept' % fld, s3, eq(load(cx, s3, Ptr(b.r, item(off(w, 'i_' + fld), i)), ty), X.it(fld, i, 'G')))
                    else: cx.oblige('contract', 'load: no frame line is passed over', s2, hash_); cx.oblige('contract', 'load: a header line is parsed', s2, TRUE if s2.ghost['hdr'] else FALSE)
                    if not s2.ghost['hdr']:
                        for n in H: cx.oblige('contract', 'load: %s changes with header lines only' % n, s2, eq(X.get(n, s2), H[n]))
                    e3 = ex.phis(f, header_, pr, e2, s2)
                else: cx.oblige('contract', 'load: a line is rejected for a reason', s2, and_(not_(hash_), not_(valid))); s2.ghost['end'] = 'reject'; out.append((dest, pr, s2, e2))
            return out
        cx.loop_inv['nbody_data_stream_reader::load'] = loop
        sat_check(w, S, 'load')
        for st, v in w.call(fn(w, 'nbody_data_stream_reader::load'), [X.s, qstring(w, new)]):
            ok = zero(v); k = st.ghost.get('end'); sk = st.ghost.get('sought', ())
            if k is None: w.goal('load: fails without an index', st, not_(ok)); w.goal('load: for no other reason', st, TRUE if any(e[0] == 'open' and not e[4] for e in st.ghost['ev']) else FALSE); closed(X, st, 'load without an index'); continue
            if k == 'reject': w.goal('load: fails after a bad line', st, not_(ok)); w.goal('load: no frame is current after a bad line', st, or_(eq(X.get('cur', st), I(MAX)), eq(X.get('cur', st), I(-1)))); continue
            c_, n_, b_ = st.ghost['H']; good = and_(eq(c_, I(8)), ne(n_, I(0)), ne(b_, I(0)))
            w.goal('load: an index without a complete header is rejected', st, implies(not_(good), not_(ok))); w.goal('load: of a good index goes to its first frame', st, implies(good, TRUE if len(sk) == 1 else FALSE)); w.goal('load: succeeds exactly then', st, implies(good, eq(zero(sk[0]), ok) if sk else FALSE))
            if sk: w.goal('load: the name of the recording', st, same_text(qget(cx, st, Ptr(X.d.r, I(off(w, 'r_base')))), new)); w.goal('load: header values are kept', st, and_(*[eq(X.get(n, st), h) for n, h in zip(('coord', 'count', 'box'), (c_, n_, b_))]))
            w.goal('load: no frame is current before the first is sought', st, or_(eq(X.get('cur', st), I(MAX)), eq(X.get('cur', st), I(-1))))
        if not used: raise Unsupported('shape of load')
    return sec
def sections(tier):
    nm_ = lambda o, f: ('open' if o else 'closed') + (', remembered part' if f else '')
    return [('seek, ' + nm_(o, f), s_seek(o, f)) for o, f in STATES] + [('read, %s%s' % (nm_(o, f), ', first read' if not c else ''), s_read(o, f, c)) for o, f in STATES for c in (True, False)] + [('getters and close', s_null), ('header line', s_header)] + [('load, %s before' % nm_(o, f), s_load(o, f, c)) for o, f, c in ((False, None, False), (True, None, True))]
