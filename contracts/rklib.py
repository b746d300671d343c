from contracts.absengine import *
RK = ['rkck', 'rkdp', 'rkdverk', 'rkf', 'rkfeagin10', 'rkfeagin12', 'rkfeagin14', 'rkgl', 'rklc']

def dyn_class(w, obj):
    """class of an object from its vtable pointer"""
    v = load(w.cx, w.st, obj, PTR)
    g = v.r.meta.get('global', '')
    import re
    m = re.match(r'_ZTV(\d+)(\w+)$', g)
    if not m: raise Unsupported('dynamic type of %r' % v)
    return m.group(2)
def dcall(w, obj, method, args=()):
    return w.call1(w.vfn(dyn_class(w, obj), method), [obj] + list(args))

class Table: pass
def read_table(w, bt):
    t = Table()
    n = cval(dcall(w, bt, 'get_steps'))
    if n is None: raise Unsupported('symbolic number of stages')
    t.s = n = int(n)
    t.implicit = flag(dcall(w, bt, "is_implicit")); t.embedded = flag(dcall(w, bt, "is_embedded"))
    ap = dcall(w, bt, 'get_a'); b1 = dcall(w, bt, 'get_b1'); b2 = dcall(w, bt, 'get_b2'); c = dcall(w, bt, 'get_c')
    rd = lambda p, i: load(w.cx, w.st, padd(p, I(8 * i)), DOUBLE)
    t.a = []
    for i in range(n):
        m = n if t.implicit else i
        if m == 0: t.a.append([]); continue
        row = load(w.cx, w.st, padd(ap, I(8 * i)), PTR)
        t.a.append([rd(row, j) for j in range(m)])
    t.b2 = [rd(b2, i) for i in range(n)]; t.c = [rd(c, i) for i in range(n)]
    t.b1 = [rd(b1, i) for i in range(n)] if not isinstance(b1, NullT) else None
    return t
def flag(v):
    if v is TRUE or v is FALSE: return v is TRUE
    if cval(v) is None: raise Unsupported('symbolic tableau property')
    return cval(v) != 0
