"""C15: initial states from text files, and saving them."""
from contracts.qtlib import *
from contracts.c16 import fn
from contracts.c12 import qstring, val, zero
HARNESS = 'c15.cpp'
HARNESS_TUS = ['nbody_data.cpp', 'nbody_engine.cpp']
HARNESS_GROUPS = ['text', 'zeno', 'save']
ASSUME = ['QFile, QTextStream and QString by their documentation: lines of a file in order, cutting, trimming and splitting a line, and the conversion of a word to a number and back (17 significant digits are exact)']
U8 = Ty('int', 8)
NAME = (('sym', 'file'),)
class Text:
    """lines of a file as functions of the line number; a string is (line, what was done to it)"""
    def __init__(self, w):
        self.w = w; self.q = Qt(w); cx = w.cx
        m = lambda rx, f: cx.models.insert(0, (re.compile(rx), f))
        def line(c):
            k = c.st.ghost['line']; c.st.ghost['line'] = add(k, I(1)); qset(c.cx, c.st, c.args[0], (('ln', k, ''),))
        m(r'^QTextStream::readLine', line)
        m(r'^QTextStream::atEnd\(\) const$', lambda c: self.B('atEnd', c.st.ghost['line']))
        def one(c, i):
            t = qget(c.cx, c.st, c.args[i])
            if len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == 'ln': return t[0][1], t[0][2]
            raise Unsupported('text of a line')
        self.one = one
        m(r'^QString::(isEmpty)\(\) const$', lambda c: self.empty(*one(c, 0)))
        m(r'^QString::trimmed(_helper)?\(', lambda c: (lambda k, h: qset(c.cx, c.st, c.args[0], (('ln', k, h + ' trim'),)))(*one(c, 1)))
        def indexof(c):
            k, h = one(c, 0); t = qget(c.cx, c.st, c.args[1])
            if t != ('//',): raise Unsupported('what is looked for in a line')
            b = self.B('has//' + h, k); i = app('index//' + h, [k], 'I'); s0 = c.st
            s1 = s0.copy(); s1.assume(b); s1.fact(and_(ge(i, I(0)), lt(i, I(1 << 31)))); s1.ghost['cut'] = (1,); s2 = s0.copy(); s2.assume(not_(b)); s2.ghost['cut'] = (0,)
            return [(s1, i), (s2, I(-1))]
        m(r'^QString::indexOf\(QString const&, int, Qt::CaseSensitivity\) const$', indexof)
        def has(c):
            k, h = one(c, 0); t = qget(c.cx, c.st, c.args[1])
            if t != ('//',): raise Unsupported('what is looked for in a line')
            return self.B('has//' + h, k)
        m(r'^QString::contains\(QString const&', has)
        def mid(left):
            def f(c):
                k, h = one(c, 1); a = list(c.args[2:])
                if not left:
                    if cval(a[0]) != 0: raise Unsupported('middle of a line')
                    a = a[1:]
                n = a[0]
                if self.w.cx.decide(c.st, eq(n, app('index//' + h, [k], 'I'))) is not True: raise Unsupported('how much of a line')
                qset(c.cx, c.st, c.args[0], (('ln', k, h + ' cut'),))
            return f
        m(r'^QString::mid\(', mid(False)); m(r'^QString::left\(', mid(True))
        def split(c):
            k, h = one(c, 1); a = c.args[2]; sk = cval(c.args[3]) if len(c.args) > 3 else 0
            sep = qget(c.cx, c.st, a)[0] if isinstance(a, Ptr) else chr(int(cval(a)))
            if sep != ' ' or sk != 1: raise Unsupported('how a line is split')
            store(c.cx, c.st, c.args[0], Ptr(Region('list', None, None, {'ql': (k, h)}), 0), PTR)
        m(r'^QString::split\((QString const&|QChar|char),', split)
        def lst(c):
            v = load(c.cx, c.st, c.args[0], PTR)
            if not isinstance(v, Ptr) or 'ql' not in v.r.meta: raise Unsupported('string list')
            return v.r.meta['ql']
        m(r'^QList<QString>::(size|count|length)\(\) const$', lambda c: self.words(c.st, *lst(c)))
        def elem(c):
            k, h = lst(c); i = c.args[1]
            c.cx.oblige('contract', 'words of a line exist when they are used', c.st, and_(ge(i, I(0)), lt(i, self.words(c.st, k, h)))); i = cval(i)
            if i is None: raise Unsupported('list index')
            r = Region('part'); c.st.mem[r.id] = (('C', {0: (qstr((('ln', k, h + ' word%d' % int(i)),)), 8)}),); return Ptr(r, 0)
        m(r'^QList<QString>::(operator\[\]|at)\(', elem); m(r'^QList<QString>::~QList|^QStringList::~', lambda c: None)
        def num(kind, sort):
            def f(c):
                k, h = one(c, 0); v = self.num(kind, k, h)
                if kind == 'u': c.st.fact(and_(ge(v, I(0)), lt(v, I(1 << 64))))
                if isinstance(c.args[1], Ptr): store(c.cx, c.st, c.args[1], ite(self.ok(kind, k, h), I(1), I(0)), U8)
                return v if kind == 'u' else ite(self.ok(kind, k, h), v, R(0))
            return f
        m(r'^QString::toULong(Long)?\(bool\*, int\) const$', num('u', 'I')); m(r'^QString::toDouble\(bool\*\) const$', num('r', 'R'))
        m(r'^QTextStream::setRealNumberNotation|^QTextStream::setNumberFlags|^QFlags<QTextStream', lambda c: self.fmt(c))
        m(r'^QTextStream::setRealNumberPrecision\(', lambda c: self.fmt(c))
        w.st.ghost['line'] = I(0); w.st.ghost['fmt'] = {'Notation': 0, 'Precision': 6}
    def fmt(self, c):
        n = re.search(r'set(RealNumber)?(\w+)\(', c.cx.dem(c.name))
        if not n: return store(c.cx, c.st, c.args[0], c.args[1], I32)
        d = dict(c.st.ghost['fmt']); d[n.group(2)] = cval(c.args[1]); c.st.ghost['fmt'] = d
    def B(self, f, k): return ne(app(f, [k], 'I'), I(0))
    def empty(self, k, h): return self.B('empty' + h, k)
    def words(self, st, k, h): v = app('words' + h, [k], 'I'); st.fact(and_(ge(v, I(0)), lt(v, I(1 << 30)))); return v
    def num(self, kind, k, h): return app(kind + '_num' + h, [k], 'I' if kind == 'u' else 'R')
    def ok(self, kind, k, h): return self.B(kind + '_ok' + h, k)
def index_phi(ex, f_, header, s, e):
    """the counting variable of a loop; other variables become arbitrary"""
    ph = [i for i in f_.blocks[header].insts if i.op == 'phi']; c = [i for i in ph if i.ty.k == 'int' and i.ty.a == 64 and cval(e[i.res]) == 0 and i.ty.a > 1]
    if len(c) != 1: raise Unsupported('counting variable of the loop')
    for i in ph:
        if i is c[0]: continue
        if i.ty.k != 'int': raise Unsupported('variable of the loop')
        if i.ty.a == 1: e[i.res] = fresh('any', 'B')
        else: e[i.res] = fresh('any', 'I'); s.fact(and_(ge(e[i.res], I(0)), lt(e[i.res], I(1 << i.ty.a))))
    return c[0].res
def truth(v): return v if getattr(v, 'sort', None) == 'B' else ne(v, I(0))
def opens(w, st, name=NAME, mode=READ):
    evs = st.ghost.get('ev', ()); o = [e for e in evs if e[0] == 'open']
    return o, (and_(TRUE if len(o) == 1 and (o[0][3] & 15) == mode else FALSE, same_text(o[0][2], name)) if o else FALSE)
def same_all(w, d, st, what, N):
    d.arrays_of(N, st, what); d.keep(N, st, what)

def s_load(unit):
    def sec(S):
        w = S.world(); T_ = Text(w); cx = w.cx; N = w.N('N', 0); d = Data(w, N); w.st.ghost['ev'] = (); used = []; S.target('nbody_data::load', 'nbody_data::get_mass_factor')
        F = w.call1(fn(w, 'nbody_data::get_mass_factor'), [I(unit)]); f = cval(F)
        G = 6.674e-11; want = (1.0, G, G * 86400.0 ** 2 / 149597870700.0 ** 3)[unit]
        w.goal('mass unit %d' % unit, w.st, TRUE if f is not None and abs(float(f) / want - 1) < (5e-4 if unit else 1e-15) else FALSE)
        def clr(c): c.st.ghost['done'] = c.st.ghost.get('done', ()) + (('clear',),)
        def add_(c):
            a = [c.args[1], c.args[2], c.args[3], c.args[4], c.args[5]]; v = []
            for (f_, n, es, ty), p in zip((FIELDS[0], FIELDS[1], FIELDS[2], FIELDS[4], FIELDS[3]), a): v += [load(c.cx, c.st, Ptr(p.r, add(p.o, I(es * q))), ty) for q in range(n)]
            c.st.ghost['done'] = c.st.ghost.get('done', ()) + (('body', v),)
        cx.contracts['nbody_data::clear'] = clr; cx.contracts['nbody_data::add_body'] = add_
        def loop(ex, f_, depth, header, prev, st, env):
            if used: return None
            blocks = f_.loops[header]; used.append(1); phis = [i for i in f_.blocks[header].insts if i.op == 'phi']
            o, good = opens(w, st); cx.oblige('contract', 'load: the file is open', st, and_(good, TRUE if o and o[0][4] else FALSE))
            cx.oblige('contract', 'load: starts with no bodies', st, TRUE if st.ghost.get('done') == (('clear',),) else FALSE); cx.oblige('contract', 'load: starts at the first line', st, eq(st.ghost['line'], I(0)))
            s = st.copy(); e = dict(env); k = fresh('k', 'I'); s.fact(and_(ge(k, I(0)), lt(k, I(1 << 60)))); s.ghost['line'] = k; s.ghost['done'] = (); out = []
            for p in phis:
                if p.ty.k != 'int': raise Unsupported('variable of the line loop')
                if p.ty.a == 1: e[p.res] = fresh('any', 'B'); continue
                e[p.res] = fresh('any', 'I'); s.fact(and_(ge(e[p.res], I(0)), lt(e[p.res], I(1 << p.ty.a))))
            for dest, pr, s2, e2 in loops.fork(ex, f_, depth, header, blocks, s, e):
                dn = s2.ghost['done']; end = T_.B('atEnd', k); ob = lambda n, c: cx.oblige('contract', 'load: ' + n, s2, c)
                if cx.pv.valid(s2.hyps(), eq(s2.ghost['line'], k)):
                    ob('stops at the end of the file only', end); ob('the end of the file adds nothing', TRUE if dest != header and not dn else FALSE); s2.ghost['end'] = 'done'; out.append((dest, pr, s2, e2)); continue
                ob('reads on before the end', not_(end)); ob('one line at a time', eq(s2.ghost['line'], add(k, I(1))))
                cut = T_.B('has//', k)
                def by(g): return ite(cut, g(' cut trim'), g(' trim'))
                def byB(g): return or_(and_(cut, g(' cut trim')), and_(not_(cut), g(' trim')))
                blank = byB(lambda h: T_.empty(k, h)); n = by(lambda h: T_.words(s2, k, h)); oks = and_(*[byB(lambda h: T_.ok('r', k, h + ' word%d' % i)) for i in range(7)]); rok = implies(gt(n, I(7)), byB(lambda h: T_.ok('r', k, h + ' word7')))
                good = and_(not_(blank), ge(n, I(7)), oks, rok)
                if dest != header: ob('a line is rejected for a reason', and_(not_(blank), not_(good))); s2.ghost['end'] = 'reject'; out.append((dest, pr, s2, e2)); continue
                if not dn: ob('only lines without content are passed over', blank); continue
                ob('one body per line', TRUE if len(dn) == 1 and dn[0][0] == 'body' else FALSE); ob('a body for a good line only', good); v = dn[0][1] if dn[0][0] == 'body' else None
                if v is None: continue
                x = [by(lambda h: T_.num('r', k, h + ' word%d' % i)) for i in range(8)]
                for i, nm_ in enumerate(('x', 'y', 'z', 'vx', 'vy', 'vz')): ob('%s of the body' % nm_, eq(v[i], x[i]))
                ob('mass of the body', eq(v[6], mul(x[6], F))); ob('color of the body', and_(*[eq(c, R(1)) for c in v[7:11]])); ob('radius of the body', eq(v[11], ite(gt(n, I(7)), x[7], R(0))))
            return out
        cx.loop_inv['nbody_data::load'] = loop; sat_check(w, S, 'load')
        for st, v in w.call(fn(w, 'nbody_data::load'), [d.p, qstring(w, NAME), I(unit)]):
            e = st.ghost.get('end'); ok = truth(v); o, good = opens(w, st)
            w.goal('load: the named file is opened', st, good); w.goal('load: only reads', st, TRUE if all(x[0] not in ('write', 'text') for x in st.ghost['ev']) else FALSE)
            if e is None: w.goal('load: fails without a file', st, not_(ok)); w.goal('load: for no other reason', st, TRUE if o and not o[0][4] else FALSE); w.goal('load: and keeps the bodies', st, TRUE if not st.ghost.get('done') else FALSE); same_all(w, d, st, 'load without a file', N)
            elif e == 'reject': w.goal('load: fails after a bad line', st, not_(ok))
            else: w.goal('load: succeeds at the end of the file', st, ok)
        if not used: raise Unsupported('shape of load')
    return sec

def s_save(S):
    w = S.world(); T_ = Text(w); cx = w.cx; N = w.N('N', 0); d = Data(w, N); w.st.ghost['ev'] = (); used = []; S.target('nbody_data::save')
    def loop(ex, f_, depth, header, prev, st, env):
        if used: return None
        blocks = f_.loops[header]; used.append(1); env = dict(env); st = st.copy(); p = index_phi(ex, f_, header, st, env); o, good = opens(w, st, mode=WRITE); cx.oblige('contract', 'save: the file is open for writing', st, and_(good, TRUE if o and o[0][4] else FALSE)); cx.oblige('contract', 'save: nothing is written before the first body', st, TRUE if not [e for e in st.ghost['ev'] if e[0] in ('text', 'write')] else FALSE)
        cx.oblige('contract', 'save: starts with the first body', st, eq(env[p], I(0))); fm = st.ghost['fmt']; out = []
        cx.oblige('contract', 'save: numbers are written exactly', st, TRUE if (fm['Notation'] == 2 and fm['Precision'] >= 16) or (fm['Notation'] == 0 and fm['Precision'] >= 17) else FALSE)
        k = fresh('k', 'I'); s = st.copy(); s.assume(and_(ge(k, I(0)), lt(k, N))); e = dict(env); e[p] = k; s.ghost['ev'] = ()
        for dest, pr, s2, e2 in loops.fork(ex, f_, depth, header, blocks, s, e):
            ob = lambda n, c: cx.oblige('contract', 'save: ' + n, s2, c)
            if dest != header: ob('goes on to the last body', FALSE); continue
            e3 = ex.phis(f_, header, pr, e2, s2); ob('the next body follows', eq(e3[p], add(k, I(1)))); ev = s2.ghost['ev']; ob('to the file only', TRUE if all(x[0] == 'text' and x[1] == o[0][1] for x in ev) else FALSE); ob('the format is kept', TRUE if s2.ghost['fmt'] == fm else FALSE)
            tx = parts(tuple(x[2] for x in ev if x[0] == 'text')); nums = [x for x in tx if isinstance(x, tuple)]; strs = [x for x in tx if isinstance(x, str)]
            shape = len(nums) == 8 and len(tx) == 16 and all(isinstance(x, str) == bool(i % 2) for i, x in enumerate(tx)) and all(set(x) == {' '} for x in strs[:-1]) and strs and strs[-1].strip(' ') == '\n'
            ob('a line of eight numbers', TRUE if shape and all(x[0] == 'real' for x in nums) else FALSE)
            if not shape: continue
            wants = [d.at('vrt', k, q, s2) for q in range(3)] + [d.at('vel', k, q, s2) for q in range(3)] + [d.at('mass', k, 0, s2), d.at('radius', k, 0, s2)]
            for n_, got, want in zip(('x', 'y', 'z', 'vx', 'vy', 'vz', 'mass', 'radius'), nums, wants): ob(n_ + ' in its column', eq(got[1], want))
        s = st.copy(); e = dict(env); e[p] = N; done = loops.fork(ex, f_, depth, header, blocks, s, e)
        for dd, pr, s2, e2 in done:
            if dd == header: cx.oblige('contract', 'save: ends after the last body', s2, FALSE)
            else: s2.ghost['end'] = (1,); s2.ghost['ev'] = s2.ghost['ev'] + (('body',),); out.append((dd, pr, s2, e2))
        return out
    cx.loop_inv['nbody_data::save'] = loop; sat_check(w, S, 'save'); kinds = set()
    for st, v in w.call(fn(w, 'nbody_data::save'), [d.p, qstring(w, NAME)]):
        ok = truth(v); o, good = opens(w, st, mode=WRITE); w.goal('save: the named file is opened and emptied', st, good); same_all(w, d, st, 'save', N)
        evs = st.ghost['ev']
        if 'end' not in st.ghost: w.goal('save: fails without a file', st, not_(ok)); w.goal('save: for no other reason', st, TRUE if o and not o[0][4] else FALSE); continue
        i = evs.index(('body',)); rest = evs[i + 1:]; fl = [j for j, x in enumerate(rest) if x[0] == 'tflush']; stt = [x for j, x in enumerate(rest) if x[0] == 'status' and fl and j > fl[0]]
        w.goal('save: success means everything has reached the file', st, implies(ok, and_(TRUE if fl else FALSE, or_(*[eq(x[2], I(0)) for x in stt]))))
        w.goal('save: fails for a reason', st, implies(not_(ok), or_(*([ne(x[2], I(0)) for x in rest if x[0] == 'status'] + [not_(x[3]) for x in rest if x[0] == 'flush'])))); w.goal('save: nothing is written behind the bodies', st, TRUE if not [x for x in rest if x[0] in ('text', 'write')] else FALSE)
    if not used: raise Unsupported('shape of save')

def s_zeno(S):
    w = S.world(); T_ = Text(w); cx = w.cx; N = w.N('N', 0); d = Data(w, N); w.st.ghost['ev'] = (); used = []; S.target('nbody_data::load_zeno_ascii'); cnt = T_.num('u', I(0), '')
    ini = {}
    def line_of(j): return add(I(3), add(mul(I(j), cnt), I(0)))
    PH = (('mass', 1), ('vrt', 3), ('vel', 3))
    def want(ph, i, q):
        k = add(line_of(ph), i); return T_.num('r', k, '' if ph == 0 else ' word%d' % q)
    def goodline(st, ph, i):
        k = add(line_of(ph), i)
        return and_(not_(T_.B('atEnd', k)), T_.ok('r', k, '') if ph == 0 else and_(eq(T_.words(st, k, ''), I(3)), *[T_.ok('r', k, ' word%d' % q) for q in range(3)]))
    def header_ok(st): return and_(T_.ok('u', I(0), ''), T_.ok('u', I(1), ''), eq(T_.num('u', I(1), ''), I(3)), not_(T_.empty(I(2), '')))
    w.fact(lt(cnt, I(1 << 40)))
    def snap_at(st, f, i, q): return d.at(f, i, q, st)
    def loop(ex, f_, depth, header, prev, st, env):
        ph = st.ghost.get('ph', 0)
        if ph >= 3: return None
        blocks = f_.loops[header]; used.append(1); env = dict(env); st = st.copy(); p = index_phi(ex, f_, header, st, env); fld, nq = PH[ph]; what = 'zeno: %s: ' % fld; ob = lambda s_, n, c: cx.oblige('contract', what + n, s_, c)
        if ph == 0: d.arrays_of(cnt, st, 'zeno: after the header'); w.goal('zeno: only after a good header', st, header_ok(st))
        ob(st, 'starts with the first body', eq(env[p], I(0))); ob(st, 'starts at its first line', eq(st.ghost['line'], line_of(ph)))
        b, _ = d.vec(fld, st)
        def upto(s, n):      # entries below n hold the numbers of the file
            base = b.r; o0 = b.o; es = 8 * nq
            def x(cx_, st_, off_, ty, size):
                j = idiv(sub(off_, o0), I(es)); c_ = lt(sub(off_, o0), mul(n, I(es))); dd = cx_.decide(st_, c_)
                if dd is False: return None
                if dd is None: raise Unsupported('which bodies are loaded')
                qq = [q for q in range(nq) if cx_.decide(st_, eq(imod(sub(off_, o0), I(es)), I(8 * q))) is True]
                if len(qq) != 1: raise Unsupported('which coordinate')
                return want(ph, j, qq[0])
            s.mem[base.id] = s.mem.get(base.id, ()) + (('X', x),)
        k = fresh('k', 'I'); s = st.copy(); s.assume(and_(ge(k, I(0)), lt(k, cnt))); e = dict(env); e[p] = k; s.ghost['line'] = add(line_of(ph), k); pre = s.copy(); out = []
        for dest, pr, s2, e2 in loops.fork(ex, f_, depth, header, blocks, s, e):
            if dest != header: ob(s2, 'is rejected for a reason', not_(goodline(s2, ph, k))); s2.ghost['end'] = 'reject'; out.append((dest, pr, s2, e2)); continue
            e3 = ex.phis(f_, header, pr, e2, s2); ob(s2, 'the next body follows', eq(e3[p], add(k, I(1)))); ob(s2, 'one line each', eq(s2.ghost['line'], add(line_of(ph), add(k, I(1))))); ob(s2, 'only good lines', goodline(s2, ph, k))
            for q in range(nq): ob(s2, 'component %d is that of the line' % q, eq(snap_at(s2, fld, k, q), want(ph, k, q)))
            d.arrays_of(cnt, s2, 'zeno'); j = fresh('j', 'I'); s3 = s2.copy(); s3.assume(and_(ge(j, I(0)), lt(j, cnt)))
            for f2, n2, es2, ty2 in FIELDS:
                s4 = s3.copy(); p4 = pre.copy(); p4.assume(and_(ge(j, I(0)), lt(j, cnt)))
                if f2 == fld: s4.assume(ne(j, k))
                for q in range(n2): ob(s4, '%s %d of the others is kept' % (f2, q), eq(d.at(f2, j, q, s4), d.at(f2, j, q, p4)))
        s = st.copy(); e = dict(env); e[p] = cnt; s.ghost['line'] = line_of(ph + 1); upto(s, cnt); s.ghost['ph'] = ph + 1
        i = fresh('i', 'I')
        for dd, pr, s2, e2 in loops.fork(ex, f_, depth, header, blocks, s, e):
            if dd == header: ob(s2, 'ends after the last body', FALSE)
            else: out.append((dd, pr, s2, e2))
        return out
    cx.loop_inv['nbody_data::load_zeno_ascii'] = loop; sat_check(w, S, 'zeno')
    for st, v in w.call(fn(w, 'nbody_data::load_zeno_ascii'), [d.p, qstring(w, NAME)]):
        ok = truth(v); o, good = opens(w, st); w.goal('zeno: the named file is opened', st, good); e = st.ghost.get('end')
        if not (o and o[0][4]): w.goal('zeno: fails without a file', st, not_(ok)); same_all(w, d, st, 'zeno without a file', N); continue
        if e == 'reject': w.goal('zeno: fails after a bad line', st, not_(ok)); continue
        if st.ghost.get('ph', 0) < 3: w.goal('zeno: a bad header is rejected', st, not_(ok)); w.goal('zeno: for a reason', st, not_(header_ok(st))); continue
        w.goal('zeno: succeeds', st, ok); d.arrays_of(cnt, st, 'zeno'); i = fresh('i', 'I'); s = st.copy(); s.assume(and_(ge(i, I(0)), lt(i, cnt)))
        for ph, (f, nq) in enumerate(PH):
            for q in range(nq): w.goal('zeno: %s %d' % (f, q), s, eq(d.at(f, i, q, s), want(ph, i, q)))
        for q in range(4): w.goal('zeno: color %d' % q, s, eq(d.at('color', i, q, s), R(1)))
        w.goal('zeno: radius', s, eq(d.at('radius', i, 0, s), R(0)))
    if len(used) < 3: raise Unsupported('shape of the zeno loader')

def s_initial(S):
    w = S.world(); T_ = Text(w); cx = w.cx; w.st.ghost['ev'] = (); N = w.N('N', 0); d = Data(w, N); S.target('nbody_data::load_initial'); M = w.N('M', 0); names = ('Zeno', 'G1', 'SI', 'ADK'); got = {n: var('type_is_' + n, 'B') for n in names}
    for a in range(4):
        for b in range(a): w.fact(not_(and_(got[names[a]], got[names[b]])))
    def comp(c):
        a, b = qget(c.cx, c.st, c.args[0]), None
        x = c.args[1]; t = qget(c.cx, c.st, x) if 'QString const&' in c.cx.dem(c.name).split('(')[1] else (const_string(c.cx, x),)
        if a != (('sym', 'type'),) or len(t) != 1 or t[0] is None: raise Unsupported('comparison of the type')
        if cval(c.args[2]) != 0: raise Unsupported('comparison by case')
        k = [n for n in names if n.lower() == t[0].lower()]
        if not k: raise Unsupported('a type not known to the property')
        return ite(got[k[0]], I(0), I(1))
    cx.models.insert(0, (re.compile(r'^QString::compare\('), comp))
    L_ = {f_: Region('L.' + f_, mul(M, I(n_ * es)), default_base('L_' + f_), {'elem': ty, 'heap': True, 'vec': True}) for f_, n_, es, ty in FIELDS}
    def ld(kind):
        def f(c):
            nm_ = qget(c.cx, c.st, c.args[1]); u = int(cval(c.args[2])) if kind == 'load' else None
            r = fresh('ok', 'B'); c.st.ghost['loads'] = c.st.ghost.get('loads', ()) + ((kind, nm_, u, r),)
            s_ = c.st
            for f_, n_, es, ty in FIELDS:
                by = mul(M, I(n_ * es)); a = L_[f_]; o = off(w, 'd_' + f_)
                for k, v in ((0, Ptr(a, 0)), (8, Ptr(a, by)), (16, Ptr(a, by))): loops.set_cell(s_, d.r, o + k, v, 8)
            loops.set_cell(s_, d.r, off(w, 'd_count'), M, 8); b_ = fresh('box', 'I'); s_.fact(and_(ge(b_, I(0)), lt(b_, I(1 << 62)))); loops.set_cell(s_, d.r, off(w, 'd_box'), b_, 8)
            return r
        return f
    cx.contracts['nbody_data::load'] = ld('load'); cx.contracts['nbody_data::load_zeno_ascii'] = ld('zeno'); sat_check(w, S, 'load_initial')
    for st, v in w.call(fn(w, 'nbody_data::load_initial'), [d.p, qstring(w, NAME), qstring(w, (('sym', 'type'),))]):
        ok = truth(v); L = st.ghost.get('loads', ()); w.goal('load_initial: one load at most', st, TRUE if len(L) <= 1 else FALSE)
        if not L: w.goal('load_initial: an unknown type is rejected', st, and_(not_(ok), *[not_(got[n]) for n in names])); same_all(w, d, st, 'load_initial of an unknown type', N); w.goal('load_initial: keeps the box', st, eq(d.get('box', st), var('D_box', 'I'))); continue
        kind, nm_, u, r = L[0]; w.goal('load_initial: of the given file', st, same_text(nm_, NAME)); n = 'Zeno' if kind == 'zeno' else ('G1', 'SI', 'ADK')[u]; w.goal('load_initial: the loader of the type', st, got[n])
        w.goal('load_initial: succeeds exactly when the load does', st, eq(ok, r)); d.arrays_of(M, st, 'load_initial')
        i = fresh('i', 'I'); s = st.copy(); s.assume(and_(ok, ge(i, I(0)), lt(i, M)))
        if cx.pv.valid(s.hyps(), FALSE): continue
        for f_, n_, es, ty in FIELDS:
            for q in range(n_): w.goal('load_initial: %s %d of the bodies is kept' % (f_, q), s, eq(d.at(f_, i, q, s), default_base('L_' + f_)(cx, s, mul(add(mul(i, I(n_)), I(q)), I(es)), ty, es)))
        j = fresh('j', 'I'); top = R(1)
        for q in range(3): top = fmax(top, maxred(j, I(0), M, default_base('L_vrt')(cx, s, mul(add(mul(j, I(3)), I(q)), I(8)), DOUBLE, 8)))
        s2 = s.copy(); s2.assume(and_(ge(M, I(1)), lt(top, R(1 << 62)))); b_ = d.get('box', s2); w.goal('load_initial: the box holds the largest coordinate', s2, and_(le(to_real(b_), top), lt(top, to_real(add(b_, I(1))))))
def sections(tier):
    return [('load, unit %d' % u, s_load(u)) for u in range(3)] + [('save', s_save), ('zeno', s_zeno), ('load_initial', s_initial)]
