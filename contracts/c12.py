"""C12: recording: what is written to the files of a stream, in which order, and what a failure leaves behind."""
from contracts.qtlib import *
from contracts import datalib
HARNESS = 'stream.cpp'
HARNESS_TUS = ['nbody_data.cpp', 'nbody_engine.cpp', 'nbody_data_stream.cpp', 'nbody_data_stream_reader.cpp']
HARNESS_GROUPS = ['record', 'faults']
EXTRACT = dict(only=['nbody_data.cpp'], extra=('-fno-access-control',), extra_src=(ROOT + '/harness/inst/data.cpp', ROOT + '/harness/inst/stream.cpp'))
ASSUME = ['QFile, QTextStream and QString by their documentation: a write returns the number of bytes taken, a flush that succeeds has put everything taken before into the file, numbers are printed exactly and reals with the precision that was set']
BASE = (('sym', 'base'),)
def fn(w, base, n=None):
    c = [k for k in w.m.funcs if base_name(w.cx.dem(k)) == base and (n is None or len(w.m.funcs[k].params) == n)]
    if len(c) != 1: raise Unsupported('%d functions named %s' % (len(c), base))
    return c[0]
def val(w, d, n, st, ty=I64): return load(w.cx, st, Ptr(d.r, I(off(w, n))), ty)
def qstring(w, t):
    r = Region('name'); w.st.mem[r.id] = (('C', {0: (qstr(t), 8)}),); return Ptr(r, 0)
def datname(n): return BASE + (('num', n), '.dat')
def stream(S, opened=True, header=None):
    """a stream object in an arbitrary state"""
    w = S.world(); q = Qt(w); W = type('W', (), {})(); W.w = w; W.q = q
    W.s = w.ctor('nbody_data_stream', []); W.d = load(w.cx, w.st, Ptr(W.s.r, I(off(w, 'w_d'))), PTR); st = w.st
    if not isinstance(W.d, Ptr): raise Unsupported('stream object')
    W.fn0 = var('file_n', 'I'); W.max = var('max_part', 'I'); W.pos = var('pos', 'I'); W.kd = (W.d.r.id, off(w, 'w_data')); W.ki = (W.d.r.id, off(w, 'w_idx')); W.kt = (W.d.r.id, off(w, 'w_ts'))
    w.fact(and_(ge(W.fn0, I(0)), lt(W.fn0, I(1 << 62)), ge(W.max, I(-(1 << 62))), lt(W.max, I(1 << 62)), ge(W.pos, I(0)), lt(W.pos, I(1 << 61))))
    for n, v, sz in (('file_n', W.fn0, 8), ('max', W.max, 8), ('base', qstr(BASE), 8)): loops.set_cell(st, W.d.r, off(w, 'w_' + n), v, sz)
    if header is not None: loops.set_cell(st, W.d.r, off(w, 'w_header'), I(1 if header else 0), 1)
    g = dict(st.ghost['qf'])
    if W.kd not in g or W.ki not in g or W.kt not in st.ghost['ts']: raise Unsupported('members of the stream')
    if opened: g[W.kd] = (datname(W.fn0), WRITE, W.pos); g[W.ki] = (BASE + ('.idx',), WRITE, fresh('ipos', 'I')); t = dict(st.ghost['ts']); t[W.kt] = (W.ki, 17); st.ghost['ts'] = t
    st.ghost['qf'] = g; st.ghost['ev'] = ()
    return W
def text(evs): return parts(tuple(e[2] for e in evs))
def zero(v): return eq(v, I(0))

def s_names(S):
    w = S.world(); Qt(w); S.target('nbody_data_stream::make_idx_name', 'nbody_data_stream::make_dat_name', 'nbody_data_stream::make_col_name', 'nbody_data_stream::make_mass_name'); n = w.N('n', 0)
    for f, a, want in (('idx', [], ('.idx',)), ('dat', [n], (('num', n), '.dat')), ('col', [], ('.col',)), ('mass', [], ('.mass',))):
        b = qstring(w, BASE); r = Region('ret')
        for st, v in w.call(fn(w, 'nbody_data_stream::make_%s_name' % f), [Ptr(r, 0), b] + a): w.goal('name of the %s file' % f, st, same_text(qget(w.cx, st, Ptr(r, 0)), BASE + want))

def s_open(append, prior):
    def sec(S):
        W = stream(S, opened=prior, header=prior); w = W.w; S.target('nbody_data_stream::open', 'nbody_data_stream::data::open_data_file', 'nbody_data_stream::data::open_index_file')
        new = (('sym', 'new'),); mx = var('max2', 'I'); w.fact(and_(ge(mx, I(-(1 << 62))), lt(mx, I(1 << 62)))); last = w.N('last', 0)
        rd = Ptr(Region('reader'), 0) if append else NULL
        w.cx.contracts['nbody_data_stream_reader::get_last_file_n'] = lambda c: last
        sat_check(w, S, 'open'); kinds = set()
        for st, v in w.call(fn(w, 'nbody_data_stream::open'), [W.s, qstring(w, new), mx, rd]):
            evs = st.ghost['ev']; fs = st.ghost['qf']; opens = [e for e in evs if e[0] == 'open']; good = not any(not e[4] for e in opens); kinds.add(good)
            w.goal('open: nothing is written', st, TRUE if not any(e[0] in ('write', 'text') for e in evs) else FALSE)
            w.goal('open: succeeds exactly when the files can be opened', st, zero(v) if good else ne(v, I(0)))
            if not good: continue
            part = last if append else I(0); md = lambda x: (x & APPEND != 0) if append else x & (WRITE | READ | APPEND) == WRITE
            for k, nm, what in ((W.kd, new + (('num', part), '.dat'), 'data'), (W.ki, new + ('.idx',), 'index')):
                n, m_, p = fs[k]; w.goal('open: the %s file' % what, st, same_text(n, nm)); w.goal('open: the %s file is %s' % (what, 'continued' if append else 'begun'), st, TRUE if md(m_) else FALSE)
            w.goal('open: part number', st, eq(val(w, W.d, 'w_file_n', st), part)); w.goal('open: part size', st, eq(val(w, W.d, 'w_max', st), mx)); w.goal('open: base name', st, same_text(qget(w.cx, st, Ptr(W.d.r, I(off(w, 'w_base')))), new))
            w.goal('open: the header is written %s' % ('only once' if append else 'anew'), st, eq(val(w, W.d, 'w_header', st, Ty('int', 8)), I(1 if append else 0)))
            t = st.ghost['ts'][W.kt]; w.goal('open: the index text goes to the index file', st, TRUE if t[0] == W.ki else FALSE); w.goal('open: times keep 15 digits', st, TRUE if t[1] >= 15 else FALSE)
        w.goal('open: can succeed', w.st, TRUE if True in kinds else FALSE)
    return sec

def s_write(header):
    def sec(S):
        W = stream(S, header=header); w = W.w; N = w.N(lo=0); w.fact(lt(N, I(1 << 40))); d = Data(w, N); S.target('nbody_data_stream::write', 'nbody_data_stream::data::write_header', 'nbody_data_stream::data::open_data_file'); sat_check(w, S, 'write')
        kinds = set(); rot = and_(lt(I(0), W.max), ge(W.pos, W.max)); part = ite(rot, add(W.fn0, I(1)), W.fn0); pos = ite(rot, I(0), W.pos); sz = mul(N, I(24))
        for st, v in w.call(fn(w, 'nbody_data_stream::write'), [W.s, d.p]):
            evs = st.ghost['ev']; fs = st.ghost['qf']; ok = zero(v); kinds.add(not w.cx.pv.valid(st.hyps(), not_(ok)))
            G = lambda n, c: w.goal('write: ' + n, st, c); V = lambda b: TRUE if b else FALSE
            whole = lambda e: eq(e[6], e[4])
            # index text: header lines first if due, then one line for the frame if everything else has worked
            tx = [e for e in evs if e[0] == 'text']; G('text goes to the index', V(all(e[1] == W.ki for e in tx)))
            hd = ('#coord_size ', ('num', I(8)), '\n#body_count ', ('num', N), '\n#box_size ', ('num', var('D_box', 'I')), '\n')
            line = (('num', var('D_step', 'I')), '\t', ('real', var('D_time', 'R'), 17), '\t', ('num', part), '\t', ('num', pos), '\n')
            full = parts(text(tx)); h = () if header else hd
            G('the index has the %sframe line when the frame is reported' % ('' if header else 'header and the '), implies(ok, same_text(full, parts(h + line))))
            short = same_text(full, h); long_ = same_text(full, parts(h + line)); partial = V(len(full) < len(parts(h)) and not header and all(same_text((a,), (b,)) is TRUE or not isinstance(a, str) for a, b in zip(full, parts(h)[:len(full)])) )
            G('the index has nothing else', or_(short, long_, partial if partial is TRUE else FALSE))
            dat = [i for i, e in enumerate(evs) if e[0] == 'write' and e[1] == W.kd]; li = [i for i, e in enumerate(evs) if e[0] == 'text' and e[2] == '\n' or e[0] == 'text' and isinstance(e[2], tuple) and e[2][0] == 'real']
            frame_text = [i for i, e in enumerate(evs) if e[0] == 'text' and isinstance(e[2], tuple) and e[2][0] == 'real']
            if frame_text:
                first = frame_text[0]; fl = [e for e in evs[:first] if e[0] == 'flush' and e[1] == W.kd]; before = [i for i in dat if i < first]
                pre = st
                G('positions and velocities are written before the frame is listed', V(len(before) == 2 and len(dat) == 2))
                if len(before) == 2:
                    a, b = evs[before[0]], evs[before[1]]
                    for e, f, o in ((a, 'vrt', I(0)), (b, 'vel', sz)):
                        G('%s of all bodies' % f, and_(V(isinstance(e[3], Ptr) and e[3].r is d.A[f] and cval(e[3].o) == 0), eq(e[4], sz))); G('%s completely written when the frame is listed' % f, whole(e)); G('%s at their place' % f, eq(e[5], add(pos, o))); G('%s in the current part' % f, same_text(e[2], datname(part)))
                k = [i for i, e in enumerate(evs[:first]) if e[0] == 'flush' and e[1] == W.kd]
                G('the data are flushed before the frame is listed', V(len(before) == 2 and k and k[-1] > before[1])); G('the flush has worked', evs[k[-1]][3] if k else FALSE)
                tf = [i for i, e in enumerate(evs) if e[0] == 'tflush' and e[1] == W.ki and i > frame_text[-1]]; sb = [e for e in evs if e[0] == 'status' and e[1] == W.ki]
                G('the index is flushed', implies(ok, V(bool(tf)))); G('a frame is reported only when the index has taken it', implies(ok, zero(sb[-1][2]) if sb else FALSE))
            else: G('a frame that is not listed is reported as failed', not_(ok))
            # the part
            od = [e for e in evs if e[0] == 'open' and e[1] == W.kd]
            G('a new part exactly when the current one is full', implies(or_(ok, V(bool(dat))), rot if od else not_(rot))); G('a new part only when the current one is full', rot if od else TRUE)
            for e in od: G('name of the new part', same_text(e[2], datname(add(W.fn0, I(1))))); G('a new part begins empty', V(e[3] & (WRITE | READ | APPEND) == WRITE))
            G('part number afterwards', implies(ok, eq(val(w, W.d, 'w_file_n', st), part)))
            # header files
            for e in evs:
                if e[0] in ('write', 'open') and e[1] not in (W.kd,): G('no other file than colors and masses', or_(same_text(e[2], BASE + ('.col',)), same_text(e[2], BASE + ('.mass',))) if not header else FALSE)
            if not header:
                for f, ext, by in (('color', '.col', 16), ('mass', '.mass', 8)):
                    es = [e for e in evs if e[0] == 'write' and same_text(e[2], BASE + (ext,)) is TRUE]; op = [e for e in evs if e[0] == 'open' and same_text(e[2], BASE + (ext,)) is TRUE]; fl = [e for e in evs if e[0] == 'flush' and same_text(e[2], BASE + (ext,)) is TRUE]
                    good = and_(V(len(es) == 1 and len(op) == 1 and op[0][3] & (WRITE | READ | APPEND) == WRITE and op[0][4] and isinstance(es[0][3], Ptr) and es[0][3].r is d.A[f] and cval(es[0][3].o) == 0), and_(eq(es[0][4], mul(N, I(by))), whole(es[0])) if es else FALSE, fl[-1][3] if fl else FALSE)
                    G('%s are recorded before the first frame is reported' % f, implies(ok, good)); G('%s are recorded before the header counts as written' % f, implies(ne(val(w, W.d, 'w_header', st, Ty('int', 8)), I(0)), good))
            G('the header counts as written', implies(ok, ne(val(w, W.d, 'w_header', st, Ty('int', 8)), I(0))))
            G('the next frame goes behind this one', implies(ok, eq(fs[W.kd][2], add(pos, mul(I(2), sz)))))
            # what would be reported as a failure has a reason
            bad = [not_(whole(e)) for e in evs if e[0] == 'write'] + [not_(e[3]) for e in evs if e[0] == 'flush'] + [ne(e[2], I(0)) for e in evs if e[0] == 'status'] + [TRUE for e in evs if e[0] == 'open' and not e[4]]
            G('a failure has a reason', or_(ok, *bad))
            d.keep(N, st, 'write')
        w.goal('write: can succeed', w.st, TRUE if True in kinds else FALSE)
    return sec
def s_misuse(S):
    W = stream(S, opened=False); w = W.w; N = w.N(lo=0); d = Data(w, N); S.target('nbody_data_stream::write', 'nbody_data_stream::close')
    for a, what in ((NULL, 'nothing'), (d.p, 'to a closed stream')):
        for st, v in w.call(fn(w, 'nbody_data_stream::write'), [W.s, a]): w.goal('writing %s fails' % what, st, ne(v, I(0))); w.goal('writing %s leaves the files alone' % what, st, TRUE if not st.ghost['ev'] else FALSE)
    W = stream(S); w = W.w
    for st, v in w.call(fn(w, 'nbody_data_stream::write'), [W.s, NULL]): w.goal('writing nothing fails', st, ne(v, I(0))); w.goal('writing nothing leaves the files alone', st, TRUE if not st.ghost['ev'] else FALSE)
    for st, v in w.call(fn(w, 'nbody_data_stream::close'), [W.s]):
        fs = st.ghost['qf']; w.goal('close: both files are closed', st, TRUE if not fs[W.kd][1] and not fs[W.ki][1] else FALSE); w.goal('close: nothing is written', st, TRUE if not any(e[0] in ('write', 'text', 'open') for e in st.ghost['ev']) else FALSE)
def sections(tier):
    return [('file names', s_names)] + [('open%s%s' % (' to append' if a else '', ', reused object' if p else ''), s_open(a, p)) for a in (False, True) for p in (False, True)] + [('first frame', s_write(False)), ('later frames', s_write(True)), ('misuse and close', s_misuse)]
