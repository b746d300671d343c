"""Contracts of the Qt classes the library uses for files and text (trusted): QString, QFile, QTextStream, QFileInfo, QDir.
Strings are sequences of literal text, printed numbers and symbols; a file is a name, an open mode and a position; what happens to files is a history of events."""
import re
from nbv.models import const_string
from contracts.datalib import *
I32 = Ty('int', 32); I64 = Ty('int', 64)
def parts(t):
    out = []
    for p in ((t,) if isinstance(t, str) else t):
        if isinstance(p, str):
            if not p: continue
            if out and isinstance(out[-1], str): out[-1] += p; continue
        out.append(p)
    return tuple(out)
def qstr(t): return Ptr(Region('qstr', None, None, {'qstr': parts(t)}), 0)
def qget(cx, st, p):
    v = load(cx, st, p, PTR)
    if isinstance(v, Ptr) and 'qstr' in v.r.meta: return parts(v.r.meta['qstr'])
    raise Unsupported('text of a string')
def qset(cx, st, p, t): store(cx, st, p, qstr(t), PTR)
def key(p):
    if not isinstance(p, Ptr) or cval(p.o) is None: raise Unsupported('object address')
    return (p.r.id, int(cval(p.o)))
def same_text(a, b):
    """condition that two texts are equal, part by part"""
    a, b = parts(a), parts(b)
    if len(a) != len(b): return FALSE
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y: return FALSE
        elif x[0] != y[0] or len(x) != len(y): return FALSE
        elif x[0] == 'sym':
            if x != y: return FALSE
        else:
            for u, v in zip(x[1:], y[1:]): cs.append(eq(u, v) if isinstance(u, T) or isinstance(v, T) else TRUE if u == v else FALSE)
    return and_(*cs)
WRITE, READ, APPEND, TRUNC = 2, 1, 4, 8
class Qt:
    """installs the contracts in a world"""
    def __init__(self, w):
        self.w = w; self.n = 0; cx = w.cx
        def m(rx, fn): cx.models.insert(0, (re.compile(rx), fn))
        def ev(c, *a): c.st.ghost['ev'] = c.st.ghost.get('ev', ()) + (a,)
        self.ev = ev
        def fb(n): return fresh(n, 'B')
        def upd(c, k, v, what='qf'): d = dict(c.st.ghost.get(what, {})); d[k] = v; c.st.ghost[what] = d
        def fstate(c, p, what='qf'):
            d = c.st.ghost.get(what, {})
            if key(p) not in d: raise Unsupported('file object')
            return d[key(p)]
        self.fstate = fstate; self.upd = upd
        qg = lambda c, i: qget(c.cx, c.st, c.args[i]); qs = lambda c, i, t: qset(c.cx, c.st, c.args[i], t)
        # ---- strings
        m(r'^QString::QString\(\)$', lambda c: qs(c, 0, ''))
        def lit(c, i):
            t = const_string(c.cx, c.args[i])
            if t is None: raise Unsupported('string literal')
            return t
        m(r'^QString::QString\(char const\*\)$', lambda c: qs(c, 0, lit(c, 1)))
        m(r'^QString::QString\(QString( const&|&&)\)$', lambda c: qs(c, 0, qg(c, 1)))
        def assign(c): qs(c, 0, qg(c, 1)); return c.args[0]
        m(r'^QString::operator=\(QString( const&|&&)\)$', assign)
        m(r'^QString::clear\(\)$', lambda c: qs(c, 0, ''))
        m(r'^operator\+\(QString const&, char const\*\)$', lambda c: qs(c, 0, qg(c, 1) + (lit(c, 2),)))
        m(r'^operator\+\(char const\*, QString const&\)$', lambda c: qs(c, 0, (lit(c, 1),) + qg(c, 2)))
        m(r'^operator\+\(QString const&, QString const&\)$', lambda c: qs(c, 0, qg(c, 1) + qg(c, 2)))
        def app_(c): qs(c, 0, qg(c, 0) + qg(c, 1)); return c.args[0]
        m(r'^QString::(operator\+=|append|push_back)\(QString const&\)$', app_)
        def appl(c): qs(c, 0, qg(c, 0) + (lit(c, 1),)); return c.args[0]
        m(r'^QString::operator\+=\(char const\*\)$', appl)
        def number(c):
            if cval(c.args[2]) != 10: raise Unsupported('number base')
            qs(c, 0, (('num', c.args[1]),))
        m(r'^QString::number\((unsigned )?(long|long long|int), int\)$', number)
        m(r'^QString::~QString\(\)$', lambda c: None)
        # ---- logging and directories: no effect on what is decided here
        m(r'^QDebug::|^QMessageLogger::|^operator<<\(QDebug|^QDebug::~|^QIODevice::errorString|^QFile::fileName|^QFileInfo::|^QDir::(~|QDir)', lambda c: (c.args[0] if c.args else None) if c.rty.k == 'ptr' else None)
        m(r'^QDir::mkpath', lambda c: fb('mkpath'))
        # ---- files
        m(r'^QFile::QFile\(\)$', lambda c: upd(c, key(c.args[0]), ((), 0, I(0))))
        m(r'^QFile::QFile\(QString const&\)$', lambda c: upd(c, key(c.args[0]), (qg(c, 1), 0, I(0))))
        def close(c):
            n, md, p = fstate(c, c.args[0])
            if md: ev(c, 'close', key(c.args[0]), n)
            upd(c, key(c.args[0]), (n, 0, I(0)))
        m(r'^QFileDevice::close\(\)$|^QFile::close\(\)$|^QFile::~QFile\(\)$', close)
        def setname(c): close(c); n, md, p = fstate(c, c.args[0]); upd(c, key(c.args[0]), (qg(c, 1), 0, I(0)))
        m(r'^QFile::setFileName\(', setname)
        m(r'^QIODevice::isOpen\(\) const$', lambda c: B(fstate(c, c.args[0])[1] != 0))
        def open_(c):
            md = cval(c.args[1])
            if md is None: raise Unsupported('open mode')
            md = int(md); n, old, p = fstate(c, c.args[0])
            if old: return FALSE
            ok = fb('open'); s0 = c.st; outs = []
            # the outcome is decided here, so that every path knows whether the file is open
            s1 = s0.copy(); s1.assume(ok); c.st = s1
            pos = I(0)
            if md & APPEND:
                pos = fresh('size', 'I'); s1.fact(and_(ge(pos, I(0)), lt(pos, I(1 << 61))))
            upd(c, key(c.args[0]), (n, md, pos)); ev(c, 'open', key(c.args[0]), n, md, True)
            s2 = s0.copy(); s2.assume(not_(ok)); c.st = s2; ev(c, 'open', key(c.args[0]), n, md, False); c.st = s0
            return [(s1, TRUE), (s2, FALSE)]
        m(r'^QFile::open\(QFlags<QIODevice::OpenModeFlag>\)$', open_)
        def pos(c):
            n, md, p = fstate(c, c.args[0])
            if not md: return I(0)
            return p
        m(r'^QFileDevice::pos\(\) const$|^QIODevice::pos\(\) const$', pos)
        def write(c):
            n, md, p = fstate(c, c.args[0])
            if not md & (WRITE | APPEND): return I(-1)
            r = fresh('wrote', 'I'); c.st.fact(and_(ge(r, I(-1)), le(r, c.args[2])))
            ev(c, 'write', key(c.args[0]), n, c.args[1], c.args[2], p, r)
            upd(c, key(c.args[0]), (n, md, ite(lt(r, I(0)), p, add(p, r)))); return r
        m(r'^QIODevice::write\(char const\*, long long\)$', write)
        def flush(c):
            n, md, p = fstate(c, c.args[0]); ok = fb('flush'); ev(c, 'flush', key(c.args[0]), n, ok); return ok if md else FALSE
        m(r'^QFileDevice::flush\(\)$|^QFile::flush\(\)$', flush)
        def seek(c):
            n, md, p = fstate(c, c.args[0])
            if not md: return FALSE
            ok = fb('seek'); c.st.fact(implies(ok, ge(c.args[1], I(0)))); upd(c, key(c.args[0]), (n, md, ite(ok, c.args[1], p))); ev(c, 'seek', key(c.args[0]), n, c.args[1], ok); return ok
        m(r'^QFileDevice::seek\(long long\)$|^QFile::seek', seek)
        def read(c):
            n, md, p = fstate(c, c.args[0])
            if not md & READ: return I(-1)
            r = fresh('got', 'I'); c.st.fact(and_(ge(r, I(-1)), le(r, c.args[2]))); dst = c.args[1]
            ev(c, 'read', key(c.args[0]), n, dst, c.args[2], p, r)
            upd(c, key(c.args[0]), (n, md, ite(lt(r, I(0)), p, add(p, r))))
            if isinstance(dst, Ptr): self.fill(c, n, dst, c.args[2], p, r)
            return r
        m(r'^QIODevice::read\(char\*, long long\)$', read)
        # ---- text streams
        m(r'^QTextStream::QTextStream\(\)$', lambda c: upd(c, key(c.args[0]), (None, 6), 'ts'))
        m(r'^QTextStream::QTextStream\(QIODevice\*\)$', lambda c: upd(c, key(c.args[0]), (key(c.args[1]), 6), 'ts'))
        m(r'^QTextStream::~QTextStream\(\)$', lambda c: None)
        def setdev(c): upd(c, key(c.args[0]), (key(c.args[1]), fstate(c, c.args[0], 'ts')[1]), 'ts')
        m(r'^QTextStream::setDevice\(', setdev)
        def prec(c): upd(c, key(c.args[0]), (fstate(c, c.args[0], 'ts')[0], int(cval(c.args[1]))), 'ts')
        m(r'^QTextStream::setRealNumberPrecision\(', prec)
        def put(c):
            d = c.cx.dem(c.name); ty = re.search(r'operator<<\((.*)\)$', d).group(1); dev, pr = fstate(c, c.args[0], 'ts'); a = c.args[1]
            if ty == 'char const*': p = (lit(c, 1),)
            elif ty == 'QString const&': p = qg(c, 1)
            elif ty == 'double': p = (('real', a, pr),)
            elif ty == 'QChar':
                v = cval(a)
                if v is None: raise Unsupported('QChar')
                p = (chr(int(v)),)
            elif ty == 'char': p = (chr(int(cval(a))),)
            else: p = (('num', a),)
            for x in p: ev(c, 'text', dev, x)
            return c.args[0]
        m(r'^QTextStream::operator<<\(', put)
        def tflush(c): ev(c, 'tflush', fstate(c, c.args[0], 'ts')[0])
        m(r'^QTextStream::flush\(\)$', tflush)
        def status(c):
            r = fresh('status', 'I'); c.st.fact(and_(ge(r, I(0)), le(r, I(3)))); ev(c, 'status', fstate(c, c.args[0], 'ts')[0], r); return r
        m(r'^QTextStream::status\(\) const$', status)
        def qch(c): store(c.cx, c.st, c.args[0], c.args[1], Ty('int', 16))
        m(r'^QChar::QChar\((char|int|unsigned short|QLatin1Char)\)$', qch)
        m(r'^QFlags<QIODevice::OpenModeFlag>::QFlags\(', lambda c: store(c.cx, c.st, c.args[0], c.args[1], I32))
    def fill(self, c, name, dst, n, pos, r): raise Unsupported('reading a file')
