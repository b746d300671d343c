"""LLVM-18 textual IR reader (lazy): types, globals, functions.

Only the text clang/opt emit for the repository's sources is accepted; anything
else raises Unsupported so that the caller can report "not decided" instead of
guessing.
"""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"
 | "(?:[^"\\]|\\.)*"
 | [%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)
 | ![0-9]+ | ![a-zA-Z_.][\w.]*
 | \#[0-9]+
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | [-+]?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?
 | -?[0-9]+
 | \.\.\.
 | [a-zA-Z_][\w.]*
 | [(){}\[\]<>,=*:|!]
''', re.X)

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a')
    def __init__(self, k, a=None):
        self.k = k; self.a = a
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.a
        if self.k in ('arr', 'vec'): return '[%d x %r]' % self.a
        if self.k == 'named': return '%' + self.a
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.a[0]))
        return self.k

VOID = Ty('void'); PTR = Ty('ptr'); DOUBLE = Ty('double'); FLOAT = Ty('float')
I1 = Ty('int', 1); I8 = Ty('int', 8); I32 = Ty('int', 32); I64 = Ty('int', 64)
SIMPLE = {'void': VOID, 'ptr': PTR, 'double': DOUBLE, 'float': FLOAT,
          'x86_fp80': Ty('x86_fp80'), 'fp128': Ty('fp128'), 'label': Ty('label'),
          'metadata': Ty('metadata'), 'opaque': Ty('opaque'), 'half': Ty('half')}

class P:
    """token cursor"""
    def __init__(self, text):
        self.t = TOK.findall(text); self.i = 0
    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('IR parse: expected %s got %s in %s' % (x, y, ' '.join(self.t)[:200]))

ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
         'zeroext', 'inreg', 'returned', 'noalias', 'immarg', 'nofree', 'writable',
         'dead_on_unwind', 'swiftself', 'nest', 'allocptr', 'allocalign', 'inbounds'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref',
          'elementtype', 'inalloca', 'preallocated'}

def skip_attrs(p):
    at = {}
    while True:
        x = p.peek()
        if x in ATTRS:
            p.next(); at[x] = True
        elif x in PATTRS:
            p.next()
            if p.peek() == '(':
                p.next()
                d = 1; inner = []
                while d:
                    y = p.next()
                    if y == '(': d += 1
                    elif y == ')': d -= 1
                    if d: inner.append(y)
                at[x] = ' '.join(inner)
            else:
                at[x] = p.next()
        else:
            return at

def parse_type(p):
    x = p.next()
    if x in SIMPLE:
        t = SIMPLE[x]
    elif x[0] == 'i' and x[1:].isdigit():
        t = Ty('int', int(x[1:]))
    elif x[0] == '%':
        t = Ty('named', unq(x))
    elif x == '[':
        n = int(p.next()); p.expect('x'); e = parse_type(p); p.expect(']')
        t = Ty('arr', (n, e))
    elif x == '<':
        if p.peek() == '{':
            p.next(); fs = []
            while not p.accept('}'):
                fs.append(parse_type(p)); p.accept(',')
            p.expect('>')
            t = Ty('struct', (tuple(fs), True))
        else:
            n = int(p.next()); p.expect('x'); e = parse_type(p); p.expect('>')
            t = Ty('vec', (n, e))
    elif x == '{':
        fs = []
        while not p.accept('}'):
            fs.append(parse_type(p)); p.accept(',')
        t = Ty('struct', (tuple(fs), False))
    else:
        raise Unsupported('IR type %s' % x)
    # function type suffix
    while p.peek() == '(' :
        p.next(); ps = []
        while not p.accept(')'):
            if p.accept('...'):
                ps.append(None)
            else:
                ps.append(parse_type(p)); skip_attrs(p)
            p.accept(',')
        t = Ty('func', (t, ps))
    return t

def unq(x):
    x = x[1:]
    if x.startswith('"'):
        x = x[1:-1]
    return x

# ---------------------------------------------------------------- operands
# operand := ('reg',name) ('glob',name) ('int',n) ('fp',Fraction|'inf'...) ('null',) ('undef',)
#            ('zero',) ('cagg',[(ty,op)]) ('cstr',bytes) ('cexpr',opname,...)
import struct as _struct
from fractions import Fraction

def fp_const(tok, ty):
    if tok.startswith('0x'):
        if tok[2] in 'KLMHR':
            return ('fpraw', tok)
        v = _struct.unpack('>d', int(tok[2:], 16).to_bytes(8, 'big'))[0]
    else:
        v = float(tok)
    if v != v: return ('fpspec', 'nan')
    if v in (float('inf'), float('-inf')): return ('fpspec', 'inf' if v > 0 else '-inf')
    return ('fp', Fraction(v))

def cstr(tok):
    s = tok[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

CEXPR = {'getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'add', 'sub', 'mul', 'icmp',
         'select', 'addrspacecast', 'zext', 'sext', 'xor', 'and', 'or', 'shl', 'lshr'}

def parse_val(p, ty):
    x = p.peek()
    if x is None:
        raise Unsupported('IR value missing')
    if x[0] == '%':
        p.next(); return ('reg', unq(x))
    if x[0] == '@':
        p.next(); return ('glob', unq(x))
    if x in ('true', 'false'):
        p.next(); return ('int', 1 if x == 'true' else 0)
    if x == 'null':
        p.next(); return ('null',)
    if x in ('undef', 'poison'):
        p.next(); return ('undef',)
    if x == 'zeroinitializer':
        p.next(); return ('zero',)
    if x == 'none':
        p.next(); return ('null',)
    if x.startswith('c"'):
        p.next(); return ('cstr', cstr(x))
    if x in ('{', '[', '<'):
        p.next()
        if x == '<' and p.peek() == '{':
            p.next()
            el = []
            while not p.accept('}'):
                t = parse_type(p); skip_attrs(p); el.append((t, parse_val(p, t))); p.accept(',')
            p.expect('>')
            return ('cagg', el)
        close = {'{': '}', '[': ']', '<': '>'}[x]
        el = []
        while not p.accept(close):
            t = parse_type(p); skip_attrs(p); el.append((t, parse_val(p, t))); p.accept(',')
        return ('cagg', el)
    if x in CEXPR:
        op = p.next()
        if op == 'getelementptr':
            inb = p.accept('inbounds')
            if p.peek() == 'inrange': p.next()
            p.expect('(')
            bt = parse_type(p); p.expect(',')
            args = []
            while not p.accept(')'):
                if p.peek() == 'inrange': p.next()
                t = parse_type(p); args.append((t, parse_val(p, t))); p.accept(',')
            return ('cexpr', 'getelementptr', bt, args)
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            p.expect('(')
            t = parse_type(p); v = parse_val(p, t); p.expect('to'); t2 = parse_type(p); p.expect(')')
            return ('cexpr', op, t, v, t2)
        while p.peek() in ('nuw', 'nsw', 'exact'): p.next()
        pred = None
        if op == 'icmp':
            pred = p.next()
        p.expect('('); args = []
        while not p.accept(')'):
            t = parse_type(p); args.append((t, parse_val(p, t))); p.accept(',')
        return ('cexpr', op, pred, args)
    if ty is not None and ty.k in ('double', 'float', 'x86_fp80', 'fp128', 'half'):
        p.next(); return fp_const(x, ty)
    if re.match(r'-?[0-9]+$', x):
        p.next(); return ('int', int(x))
    if x == 'dso_local_equivalent' or x == 'no_cfi':
        p.next(); return parse_val(p, ty)
    raise Unsupported('IR value %s' % x)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text')
    def __init__(self, op, res, ty, a, line, text):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.line = line; self.text = text
    def __repr__(self):
        return self.text.strip()

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'bitcast',
        'ptrtoint', 'inttoptr', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'nneg', 'disjoint', 'volatile', 'atomic'}
CC = {'fastcc', 'ccc', 'coldcc', 'spir_kernel', 'spir_func', 'amdgpu_kernel'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
           'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable',
           'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'thread_local',
           'externally_initialized'}

DBG = re.compile(r', !dbg !(\d+)')

def parse_inst(text, mod):
    m = DBG.search(text)
    line = mod.dbgline(int(m.group(1))) if m else None
    # strip metadata attachments
    body = re.sub(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$', '', text)
    p = P(body)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = unq(p.next()); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    def flags():
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        return fl
    if op in BIN:
        flags()
        t = parse_type(p); a = parse_val(p, t); p.expect(','); b = parse_val(p, t)
        return Inst(op, res, t, (a, b), line, text)
    if op == 'fneg':
        flags(); t = parse_type(p); return Inst(op, res, t, (parse_val(p, t),), line, text)
    if op in ('icmp', 'fcmp'):
        flags(); pred = p.next(); t = parse_type(p); a = parse_val(p, t); p.expect(','); b = parse_val(p, t)
        return Inst(op, res, t, (pred, a, b), line, text)
    if op in CAST:
        flags(); t = parse_type(p); a = parse_val(p, t); p.expect('to'); t2 = parse_type(p)
        return Inst(op, res, t2, (t, a), line, text)
    if op == 'load':
        fl = flags(); t = parse_type(p); p.expect(','); pt = parse_type(p); a = parse_val(p, pt)
        return Inst(op, res, t, (a, fl), line, text)
    if op == 'store':
        fl = flags(); t = parse_type(p); v = parse_val(p, t); p.expect(','); pt = parse_type(p); a = parse_val(p, pt)
        return Inst(op, None, t, (v, a, fl), line, text)
    if op == 'alloca':
        t = parse_type(p); n = None
        if p.peek() == ',' and p.peek(1) not in ('align', 'addrspace'):
            p.next(); nt = parse_type(p); n = (nt, parse_val(p, nt))
        return Inst(op, res, t, (n,), line, text)
    if op == 'getelementptr':
        flags(); bt = parse_type(p); p.expect(','); args = []
        while True:
            t = parse_type(p); args.append((t, parse_val(p, t)))
            if not p.accept(','): break
        return Inst(op, res, bt, args, line, text)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return Inst('br', None, None, (None, unq(p.next()), None), line, text)
        t = parse_type(p); c = parse_val(p, t); p.expect(','); p.expect('label'); a = unq(p.next()); p.expect(','); p.expect('label'); b = unq(p.next())
        return Inst('br', None, None, (c, a, b), line, text)
    if op == 'switch':
        t = parse_type(p); c = parse_val(p, t); p.expect(','); p.expect('label'); d = unq(p.next()); p.expect('[')
        cs = []
        while not p.accept(']'):
            ct = parse_type(p); cv = parse_val(p, ct); p.expect(','); p.expect('label'); cs.append((cv, unq(p.next())))
        return Inst('switch', None, t, (c, d, cs), line, text)
    if op == 'ret':
        t = parse_type(p)
        return Inst('ret', None, t, (None if t.k == 'void' else parse_val(p, t),), line, text)
    if op == 'unreachable':
        return Inst(op, None, None, (), line, text)
    if op == 'phi':
        flags(); t = parse_type(p); inc = []
        while True:
            p.expect('['); v = parse_val(p, t); p.expect(','); inc.append((v, unq(p.next()))); p.expect(']')
            if not p.accept(','): break
        return Inst(op, res, t, inc, line, text)
    if op == 'select':
        flags(); ct = parse_type(p); c = parse_val(p, ct); p.expect(','); t = parse_type(p); a = parse_val(p, t); p.expect(','); t2 = parse_type(p); b = parse_val(p, t2)
        return Inst(op, res, t, (c, a, b), line, text)
    if op == 'call':
        flags()
        while p.peek() in CC: p.next()
        ra = skip_attrs(p); rt = parse_type(p)
        if rt.k == 'func': rt = rt.a[0]
        callee = parse_val(p, PTR); p.expect('('); args = []
        while not p.accept(')'):
            if p.peek() == 'metadata':
                # debug intrinsics
                return Inst('nop', None, None, (), line, text)
            t = parse_type(p); at = skip_attrs(p); args.append((t, parse_val(p, t), at)); p.accept(',')
        return Inst(op, res, rt, (callee, args), line, text)
    if op == 'extractvalue':
        t = parse_type(p); v = parse_val(p, t); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return Inst(op, res, t, (v, idx), line, text)
    if op == 'insertvalue':
        t = parse_type(p); v = parse_val(p, t); p.expect(','); t2 = parse_type(p); v2 = parse_val(p, t2); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return Inst(op, res, t, (v, v2, idx), line, text)
    if op == 'extractelement':
        t = parse_type(p); v = parse_val(p, t); p.expect(','); t2 = parse_type(p); i = parse_val(p, t2)
        return Inst(op, res, t, (v, i), line, text)
    if op == 'insertelement':
        t = parse_type(p); v = parse_val(p, t); p.expect(','); t1 = parse_type(p); e = parse_val(p, t1); p.expect(','); t2 = parse_type(p); i = parse_val(p, t2)
        return Inst(op, res, t, (v, e, i), line, text)
    if op == 'atomicrmw':
        flags(); o = p.next(); pt = parse_type(p); a = parse_val(p, pt); p.expect(','); t = parse_type(p); v = parse_val(p, t)
        return Inst(op, res, t, (o, a, v), line, text)
    if op == 'fence':
        return Inst('nop', None, None, (), line, text)
    if op == 'freeze':
        t = parse_type(p); return Inst(op, res, t, (parse_val(p, t),), line, text)
    raise Unsupported('IR instruction: ' + text.strip()[:160])

class Block:
    __slots__ = ('name', 'insts', 'succ', 'pred')
    def __init__(self, name):
        self.name = name; self.insts = []; self.succ = []; self.pred = []

class Function:
    def __init__(self, name, rty, params, lines, mod):
        self.name = name; self.rty = rty; self.params = params; self.lines = lines; self.mod = mod
        self._blocks = None
    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks
    def _parse(self):
        bl = {}; order = []; cur = None
        joined = []; buf = None
        for l in self.lines:
            if buf is not None:
                buf += ' ' + l.strip()
                if ']' in l:
                    joined.append(buf); buf = None
                continue
            if re.match(r'\s+switch ', l) and ']' not in l:
                buf = l
                continue
            joined.append(l)
        for l in joined:
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"])*"|[-a-zA-Z$._0-9]+):', l)
            if m and not l.startswith(' '):
                nm = m.group(1).strip('"')
                cur = Block(nm); bl[nm] = cur; order.append(nm)
                continue
            if cur is None:
                cur = Block('entry'); 
                cur.name = str(self.nparams_unnamed()); bl[cur.name] = cur; order.append(cur.name)
            i = parse_inst(l, self.mod)
            if i.op != 'nop':
                cur.insts.append(i)
        for b in bl.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            else:
                b.succ = []
            for s in b.succ: bl[s].pred.append(b.name)
        self.order = order
        self.entry = order[0]
        self._blocks = bl
        self._analyse()
    def nparams_unnamed(self):
        return sum(1 for p in self.params if re.match(r'\d+$', p[1]))
    # dominators, loops, post-dominators
    def _analyse(self):
        bl = self._blocks
        seen = []; vis = set()
        stack = [(self.entry, iter(bl[self.entry].succ))]; vis.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in vis:
                    vis.add(s); stack.append((s, iter(bl[s].succ))); break
            else:
                seen.append(n); stack.pop()
        rpo = seen[::-1]
        self.rpo = rpo; num = {b: i for i, b in enumerate(rpo)}
        self.rponum = num
        dom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in bl[b].pred:
                    if p in dom and p in num:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = dom[x]
                                while num[y] > num[x]: y = dom[y]
                            new = x
                if new is not None and dom.get(b) != new:
                    dom[b] = new; ch = True
        self.idom = dom
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in bl[b].succ:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(q for q in bl[x].pred if q in num)
        self.loops = loops      # header -> set of blocks
        # post-dominators with virtual exit
        EX = '$exit'
        succ = {b: list(bl[b].succ) or [EX] for b in rpo}
        pred = {b: [] for b in rpo}; pred[EX] = []
        for b in rpo:
            for s in succ[b]: pred[s].append(b)
        order = []; vis = {EX}
        stack = [(EX, iter(pred[EX]))]
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in vis:
                    vis.add(s); stack.append((s, iter(pred[s]))); break
            else:
                order.append(n); stack.pop()
        order = order[::-1]; num2 = {b: i for i, b in enumerate(order)}
        pd = {EX: EX}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for s in succ[b]:
                    if s in pd:
                        if new is None: new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num2[x] > num2[y]: x = pd[x]
                                while num2[y] > num2[x]: y = pd[y]
                            new = x
                if new is not None and pd.get(b) != new:
                    pd[b] = new; ch = True
        self.ipdom = pd

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.aliases = {}
        self._md = {}
        self._gtext = {}
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                f = self._fhead(l, lines[i+1:j])
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("(?:[^"])*"|[-a-zA-Z$._0-9]+)\(', l)
                if m:
                    self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, t = l.split(' = type ', 1)
                self.types[unq(nm)] = t
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"])*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                nm = m.group(1).strip('"')
                if re.search(r'\balias\b', m.group(2).split('@')[0]):
                    tgt = re.findall(r'@("(?:[^"])*"|[-a-zA-Z$._0-9]+)', m.group(2))[-1].strip('"')
                    self.aliases[nm] = tgt
                else:
                    self._gtext[nm] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m: self._md[int(m.group(1))] = m.group(2)
            i += 1
        self._tcache = {}
    def dbgline(self, n):
        s = self._md.get(n, '')
        m = re.search(r'DILocation\(line: (\d+)', s)
        return int(m.group(1)) if m else None
    def _fhead(self, l, body):
        l = re.sub(r' !dbg !\d+', '', l)
        m = re.search(r'@("(?:[^"])*"|[-a-zA-Z$._0-9]+)\(', l)
        name = m.group(1).strip('"')
        pre = l[len('define '):m.start()]
        p = P(pre)
        while p.peek() in LINKAGE or p.peek() in CC or p.peek() == 'thread_local':
            p.next()
        skip_attrs(p)
        rty = parse_type(p)
        p = P(l[m.end():])
        params = []; k = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = parse_type(p); at = skip_attrs(p)
            if p.peek() and p.peek()[0] == '%':
                nm = unq(p.next())
            else:
                nm = str(k)
            params.append((t, nm, at)); k += 1
            p.accept(',')
        return Function(name, rty, params, body, self)
    def global_init(self, nm):
        """(type, operand, isconst) for a global, operand None if external"""
        if nm in self.globals: return self.globals[nm]
        txt = self._gtext[nm]
        txt = re.sub(r'(, (align \d+|comdat(\(\S+\))?|section "[^"]*"|!\S+ !\d+))+\s*$', '', txt)
        p = P(txt)
        ext = False
        while p.peek() not in ('global', 'constant'):
            x = p.next()
            if x in ('external', 'extern_weak'): ext = True
            if x == '(':
                while p.next() != ')': pass
        const = p.next() == 'constant'
        t = parse_type(p)
        v = None if ext or p.peek() is None else parse_val(p, t)
        self.globals[nm] = (t, v, const)
        return self.globals[nm]
    # ---- layout
    def resolve(self, t):
        if t.k == 'named':
            r = self._tcache.get(t.a)
            if r is None:
                r = parse_type(P(self.types[t.a]))
                self._tcache[t.a] = r
            return r
        return t
    def align(self, t):
        t = self.resolve(t)
        k = t.k
        if k == 'int': 
            b = (t.a + 7) // 8
            a = 1
            while a < b: a *= 2
            return min(a, 16)
        if k == 'double': return 8
        if k == 'float': return 4
        if k == 'ptr': return 8
        if k in ('x86_fp80', 'fp128'): return 16
        if k == 'arr': return self.align(t.a[1])
        if k == 'vec': 
            return self.sizeof(t)
        if k == 'struct':
            if t.a[1]: return 1
            return max([self.align(f) for f in t.a[0]] + [1])
        raise Unsupported('align of %r' % t)
    def sizeof(self, t):
        t = self.resolve(t)
        k = t.k
        if k == 'int':
            b = (t.a + 7) // 8; a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'double' or k == 'ptr': return 8
        if k == 'float': return 4
        if k in ('x86_fp80', 'fp128'): return 16
        if k == 'arr': return t.a[0] * self.sizeof(t.a[1])
        if k == 'vec':
            s = t.a[0] * self.sizeof(t.a[1]); a = 1
            while a < s: a *= 2
            return a
        if k == 'struct':
            o = 0
            for f in t.a[0]:
                if not t.a[1]:
                    a = self.align(f); o = (o + a - 1) // a * a
                o += self.sizeof(f)
            a = self.align(t)
            return (o + a - 1) // a * a
        if k == 'opaque': return 8
        raise Unsupported('sizeof %r' % t)
    def field_off(self, t, i):
        t = self.resolve(t); o = 0
        for j, f in enumerate(t.a[0]):
            if not t.a[1]:
                a = self.align(f); o = (o + a - 1) // a * a
            if j == i: return o, f
            o += self.sizeof(f)
        raise Unsupported('field')
