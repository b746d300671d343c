"""Loop summaries by induction (see symex.Exec)."""
from .symex import *
from .symex import _read
from . import terms as tm

class Restart(Exception): pass
import os
DBG = bool(os.environ.get('NBV_DBG'))

def run_loop(ex, f, depth, header, prev, st, env):
    """env already holds the header phis for the entry edge. Returns outcomes leaving the loop."""
    cx = ex.cx
    blocks = f.loops[header]
    par = st.omp; 
    key = (base_name(cx.dem(f.name)), ordinal(f, header))
    inv = cx.loop_inv.get(key) or cx.loop_inv.get(key[0])
    if inv is not None and not cx.in_inv:
        r = inv(ex, f, depth, header, prev, st, env)
        if r is not None: return r
    if not par:
        r = try_unroll(ex, f, depth, header, blocks, st, env)
        if r is not None: return r
    return summarise(ex, f, depth, header, blocks, prev, st, env, par)
Ctx.in_inv = False

def ordinal(f, header):
    hs = sorted(f.loops, key=lambda h: f.rponum[h])
    return hs.index(header)

def fork(ex, f, depth, header, blocks, st, env):
    return ex.run(f, depth, header, None, [(None, st, env)], (blocks, header))

def try_unroll(ex, f, depth, header, blocks, st, env):
    cx = ex.cx
    # cheap pre-check: run iterations while there is exactly one feasible continuation
    cur = st.copy(); e = dict(env); n = 0
    nobl = len(cx.obls); seen = dict(cx.seen_obl)
    saved_tracks = [len(t) for t in cx.track]
    lim = cx.unroll
    def abort():
        del cx.obls[nobl:]; cx.seen_obl.clear(); cx.seen_obl.update(seen)
        for t, k in zip(cx.track, saved_tracks): del t[k:]
        return None
    if big_const_bound(f, header, lim): return None
    # a quick look at the header's own condition
    q = header_decision(ex, f, header, cur, e)
    if q is None: return None
    early = []
    while True:
        if n > lim: return abort()
        outs = fork(ex, f, depth, header, blocks, cur, e)
        back = [o for o in outs if o[0] == header]
        exits = [o for o in outs if o[0] != header]
        if back and exits:
            # early exit of a loop whose bound is concrete: keep the exits and go on
            if header_decision(ex, f, header, cur, e) is None or len(early) > 24: return abort()
            early += exits
        if not back:
            return early + exits
        if len(back) > 1:
            lst = [(p, s, ex.phis(f, header, p, ev, s)) for _, p, s, ev in back]
            lst = ex.merge_pending(lst)
            if len(lst) > 1: return abort()
            _, cur, e = lst[0]
        else:
            _, p, cur, ev = back[0]
            e = ex.phis(f, header, p, ev, cur)
        n += 1

def big_const_bound(f, header, lim):
    for i in f.blocks[header].insts:
        if i.op == 'icmp':
            for o in i.a[1:]:
                if o[0] == 'int' and lim < abs(o[1]) < 1 << 31: return True
    return False

def header_decision(ex, f, header, st, env):
    """True/False when the header's branch is decided now (or header does not branch), else None"""
    cx = ex.cx
    b = f.blocks[header]
    if b.insts[-1].op != 'br' or b.insts[-1].a[0] is None: return True
    cx.mute += 1
    try:
        s = st.copy(); e = dict(env)
        for ins in b.insts:
            if ins.op == 'phi': continue
            if ins.op == 'br':
                c = ex.val(I1, ins.a[0], e, s)
                if not isinstance(c, T): return True
                return cx.decide(s, c)
            if ins.op == 'call': return True
            ex.inst(f, ins, s, e)
    except (Unsupported, Infeasible):
        return None
    finally:
        cx.mute -= 1
    return None

# ---------------------------------------------------------------------------------------------
class Carried:
    """a loop-carried scalar: phi or memory cell"""
    def __init__(self, kind, key, init, ty=None, size=None):
        self.kind = kind; self.key = key; self.init = init; self.closed = None; self.sym = None; self.ty = ty; self.size = size; self.acc = False; self.latch = False

def mksym(v, name):
    if isinstance(v, T): return fresh(name, v.sort)
    return None

def as_ptr_affine(init, nxt, sym):
    return None

def summarise(ex, f, depth, header, blocks, prev, st0, env0, par):
    cx = ex.cx
    cx.stat_loops += 1
    pre_regions = set(st0.mem)
    b = f.blocks[header]
    phis = [i for i in b.insts if i.op == 'phi']
    sc = {}           # carried scalars: ('phi',name) / ('cell',rid,off)
    for i in phis:
        sc[('phi', i.res)] = Carried('phi', i.res, env0[i.res], i.ty)
    arrays = {}       # rid -> dict(name, closed)
    regs = {}
    k = fresh('it', 'I'); ka = as_atom(k)
    trip = None
    known_regions = {}
    start_pc_len = len(st0.pc)
    base = st0
    passes = 0
    entry_rids = set(st0.mem.keys())
    max_region_id = next(_ridpeek())
    presolve_phis(ex, f, header, blocks, sc, env0, par, k)
    ck = (f.name, header)
    for r, off, size, wty in cx.loop_seed.get(ck, ()):
        if r.id > max_region_id or r.id in arrays: continue
        regs[r.id] = r
        if off is None:
            arrays[r.id] = {'name': 'A%d_%s' % (next(_acount), r.name), 'closed': None}
        elif ('cell', r.id, off) not in sc and not has_sym_entries(base.mem.get(r.id, ())):
            try: iv = init_cell(cx, base, r, off, size, wty)
            except Unsupported: continue
            sc[('cell', r.id, off)] = Carried('cell', (r.id, off), iv, None, size)
    early_trip = True
    while True:
        passes += 1
        if passes > 40: raise Unsupported('loop at %s not closed: %s' % (where(cx, f, header), unsolved(sc, arrays)))
        st = base.copy(); env = dict(env0)
        st.omp = None
        st.fact(ge(k, I(0)))
        if trip is not None: st.assume(lt(k, trip))
        syms = {}
        for key, c in sc.items():
            v = c.closed(k) if c.closed and not c.acc else None
            if v is None:
                if isinstance(c.init, T):
                    if c.sym is None: c.sym = fresh('c', c.init.sort)
                    v = c.sym; syms[as_atom(v) if c.init.sort in 'IR' else v] = key
                elif isinstance(c.init, Ptr):
                    if c.sym is None: c.sym = fresh('po', 'I')
                    v = Ptr(c.init.r, ptr_sym(cx, c)); syms[as_atom(c.sym)] = key
                elif isinstance(c.init, (UndefT,)) :
                    v = c.init if c.sym is None else c.sym
                elif isinstance(c.init, (NullT, Opaque, Fn, PIte)) or type(c.init).__name__ == 'PInt':
                    v = c.init   # assumed invariant; verified below
                else: v = c.init
            if c.kind == 'phi': env[c.key] = v
            else:
                rid, off = c.key
                set_cell(st, regs[rid], off, v, c.size)
        for rid, a in arrays.items():
            r = regs[rid]
            if a['closed'] is not None:
                st.mem[rid] = a['closed'](k)
            else:
                st.mem[rid] = (('X', arr_base(a['name'], r), a['name']),)
                syms[a['name']] = ('arr', rid)
        if trip is None and early_trip:
            early_trip = False
            t = find_trip(ex, f, header, blocks, st, env, k, sc, cx)
            if t is not None:
                trip = t
                st.assume(lt(k, trip))
        cx.mute += 1
        if trip is None: cx.mute_canon += 1
        tr = []; outer = cx.track; cx.track = [tr]
        try:
            outs = fork(ex, f, depth, header, blocks, st, env)
        finally:
            cx.mute -= 1
            if trip is None: cx.mute_canon -= 1
            cx.track = outer
        back = [o for o in outs if o[0] == header]
        exits = [o for o in outs if o[0] != header]
        # --- trip count from the header test
        if trip is None:
            t = find_trip(ex, f, header, blocks, st, env, k, sc, cx)
            if t is not None:
                trip = t
                continue
        # --- discover written memory
        new = False
        for o in outs:
            s = o[2]
            for kind, r, off, size, hy, w, wty in tr:
                if kind != 'w' or r.id > max_region_id: continue
                if r.id in arrays: continue
                regs[r.id] = r
                kk = cval(off)
                if kk is not None and not has_sym_entries(base.mem.get(r.id, ())) :
                    key = ('cell', r.id, int(kk))
                    if key not in sc:
                        ty = cell_type(tr, r, kk, size)
                        iv = init_cell(cx, base, r, int(kk), size, wty)
                        sc[key] = Carried('cell', (r.id, int(kk)), iv, None, size)
                        new = True
                else:
                    # region written at a varying address -> array
                    for q in [q for q in sc if q[0] == 'cell' and q[1] == r.id]: del sc[q]
                    arrays[r.id] = {'name': 'A%d_%s' % (next(_acount), r.name), 'closed': None}
                    new = True
            break
        if new:
            seed = {}
            for kind, r, off, size, hy, w, wty in tr:
                if kind == 'w' and r.id <= max_region_id:
                    kk = cval(off)
                    if r.id in arrays: seed[(r.id, None)] = (r, None, size, wty)
                    elif kk is not None: seed[(r.id, int(kk))] = (r, int(kk), size, wty)
            cx.loop_seed[ck] = tuple(seed.values())
            continue
        if not back:
            # body never comes back: all outcomes are exits on the first iteration
            if trip is None or True:
                return finish_noback(ex, f, depth, header, blocks, st0, env0)
        lst = [(p, s, ex.phis(f, header, p, ev, s)) for _, p, s, ev in back]
        lst = ex.merge_pending(lst)
        if len(lst) > 1: raise Unsupported('loop at %s: iteration states do not merge' % where(cx, f, header))
        _, s1, e1 = lst[0]
        # --- ghost state must be invariant
        for g in s1.ghost:
            if not (g in base.ghost and (s1.ghost[g] is base.ghost[g] or s1.ghost[g] == base.ghost[g])):
                raise Unsupported('loop at %s changes ghost state %s' % (where(cx, f, header), g))
        un = set(syms)
        progress = False
        pending = False
        for key, c in sc.items():
            if c.closed: continue
            nxt = e1[c.key] if c.kind == 'phi' else get_cell(cx, s1, regs[c.key[0]], c.key[1], c.size, c.init)
            ok = solve_scalar(cx, c, nxt, k, un, s1, base)
            if ok and par: parallel_acc(c, k)
            if ok: progress = True
            else: pending = True
        if progress: continue
        for rid, a in arrays.items():
            if a['closed'] is not None: continue
            if solve_array(ex, cx, a, regs[rid], rid, st, s1, k, un, base, trip, par): progress = True
            else: pending = True
        if progress: continue
        if pending and solve_joint(ex, cx, arrays, regs, st, s1, k, un, base, par): continue
        if pending:
            # last resort: scalars first written before read in every iteration (dead on entry)
            if latch_scalars(cx, sc, e1, s1, regs, k, un): continue
            if DBG:
                for key, c in sc.items():
                    if c.closed: continue
                    nxt = e1[c.key] if c.kind == 'phi' else get_cell(cx, s1, regs[c.key[0]], c.key[1], c.size, c.init)
                    print('NC', where(cx, f, header), key, regs[c.key[0]].name if c.kind != 'phi' else '', 'sym', c.sym, 'init', str(c.init)[:200], 'next', show(nxt, 900) if isinstance(nxt, T) else nxt)
            raise Unsupported('loop at %s not closed: %s' % (where(cx, f, header), unsolved(sc, arrays)))
        if trip is None and has_header_exit(f, header, blocks):
            raise Unsupported('loop at %s: no trip count' % where(cx, f, header))
        break
    if trip is None: raise Unsupported('loop at %s: no header exit' % where(cx, f, header))
    # ------------------------------------------------------------------ checking pass (obligations on)
    noearly = all(is_header_exit(f, header, o) for o in exits)
    if cx.mute and noearly:
        for t in cx.track: t.extend(tr)
        return leave(ex, f, depth, header, blocks, base, env0, sc, arrays, regs, trip, TRUE, ka, [])
    st = base.copy(); env = dict(env0); st.omp = None
    st.fact(ge(k, I(0))); st.assume(lt(k, trip))
    install(cx, st, env, sc, arrays, regs, k, True)
    tr = []; cx.track.append(tr)
    try:
        outs = fork(ex, f, depth, header, blocks, st, env)
    finally:
        cx.track.pop()
    back = [o for o in outs if o[0] == header]
    exits = [o for o in outs if o[0] != header]
    if not cx.mute: induction_check(ex, cx, f, header, back, sc, regs, k, st, trip)
    if par:
        cx.stat_par += 1
        race_check(cx, f, header, tr, ka, trip, max_region_id, base, par, sc)
    early = [o for o in exits if not is_header_exit(f, header, o)]
    hx = [o for o in exits if is_header_exit(f, header, o)]
    # conditions under which iteration k continues
    res = []
    contc = TRUE
    if early:
        if par: raise Unsupported('early exit of a parallel loop')
        if hx and False: pass
        conds = []
        n0 = len(st.pc)
        for o in back: conds.append(and_(*o[2].pc[n0:]))
        contc = or_(*conds)
        kx = fresh('kx', 'I')
        for dest, p, s, e in early:
            s = state_subst(cx, s, {ka: kx})
            e = {q: vsubst_any(v, {ka: kx}) for q, v in e.items()}
            j = fresh('j', 'I')
            s.fact(ge(kx, I(0)))
            s.assume(forall(j, and_(ge(j, I(0)), lt(j, kx)), subst(contc, {ka: j})))
            res.append((dest, p, s, e))
    return leave(ex, f, depth, header, blocks, base, env0, sc, arrays, regs, trip, contc if early else TRUE, ka, res)

def leave(ex, f, depth, header, blocks, base, env0, sc, arrays, regs, trip, contc, ka, res):
    # normal exit: header evaluated with k = trip
    cx = ex.cx
    st = base.copy(); env = dict(env0); st.omp = None
    if contc is not TRUE:
        j = fresh('j', 'I')
        st.assume(forall(j, and_(ge(j, I(0)), lt(j, trip)), subst(contc, {ka: j})))
    install(cx, st, env, sc, arrays, regs, trip)
    for dest, s, e in ex.block(f, depth, header, st, env):
        if dest in blocks:
            # infeasible continuation after the last iteration must be refuted
            cx.oblige('loop', 'loop at %s ends after the derived trip count' % where(cx, f, header), s, FALSE)
            continue
        res.append((dest, header, s, e))
    return res

def presolve_phis(ex, f, header, blocks, sc, env0, par, k):
    """induction variables visible in the code (phi = phi + constant) are closed before the first pass"""
    defs = {}
    for b in blocks:
        for i in f.blocks[b].insts:
            if i.res is not None: defs[i.res] = i
    for i in f.blocks[header].insts:
        if i.op != 'phi': break
        c = sc[('phi', i.res)]
        if not (isinstance(c.init, T) and c.init.sort == 'I'): continue
        latch = [v for v, lab in i.a if lab in blocks]
        if len(latch) != 1 or latch[0][0] != 'reg': continue
        d = defs.get(latch[0][1])
        if d is None or d.op != 'add': continue
        ops = list(d.a)
        stp = [o for o in ops if o[0] == 'int']; ph = [o for o in ops if o == ('reg', i.res)]
        if len(stp) != 1 or len(ph) != 1: continue
        step = stp[0][1]; init = c.init
        c.sym = fresh('c', 'I')
        c.closed = lambda kk, init=init, step=step: add(init, scale(I(kk), step))
        if par: parallel_acc(c, k)

def induction_check(ex, cx, f, header, back, sc, regs, k, st, trip):
    """the closed forms are inductive: value at the back edge of iteration k is the closed form at k+1"""
    if not back: return
    lst = ex.merge_pending([(p, s, ex.phis(f, header, p, ev, s)) for _, p, s, ev in back])
    for _, s1, e1 in lst:
        for key, c in sc.items():
            if c.acc or c.latch: continue
            want = c.closed(add(k, I(1)))
            got = e1[c.key] if c.kind == 'phi' else get_cell(cx, s1, regs[c.key[0]], c.key[1], c.size, c.init)
            if isinstance(want, Ptr) and isinstance(got, Ptr) and want.r is got.r: want, got = want.o, got.o
            if not isinstance(want, T) or not isinstance(got, T) or want is got: continue
            if want.sort != got.sort: continue
            if want.sort == 'R' and atoms_of(want, ('sum', 'maxred', 'max')): continue      # by construction of the sum
            if want.sort == 'I' and cx.pv.valid(s1.hyps(), eq(want, got)): continue
            cx.oblige('loop', 'closed form of %s in the loop at %s is inductive' % (c.key, where(cx, f, header)), s1, eq(want, got))

def vsubst_any(v, mp):
    if type(v).__name__ == 'PInt': return PInt(vsubst(v.p, mp))
    return vsubst(v, mp)

def _ridpeek():
    r = Region('peek')
    yield r.id
import itertools as _it
_acount = _it.count(1)

def where(cx, f, header):
    b = f.blocks[header]
    ln = next((i.line for i in b.insts if i.line), None)
    return '%s:%s' % (short(cx.dem(f.name)), ln)

def unsolved(sc, arrays):
    return ', '.join([str(c.key) for c in sc.values() if not c.closed] + [a['name'] for a in arrays.values() if a['closed'] is None])

def has_sym_entries(lg):
    return any(e[0] in ('S', 'M') for e in lg)

def cell_type(tr, r, k, size): return None

def init_cell(cx, base, r, off, size, ty):
    lg = base.mem.get(r.id, ())
    for e in reversed(lg):
        if e[0] == 'C' and off in e[1]: return e[1][off][0]
        if e[0] == 'X': break
    if ty is None: raise Unsupported('block write inside a loop')
    if ty.k == 'ptr' and r.base is None and not any(e[0] == 'X' for e in lg): return UNDEF
    return _read(cx, base, r, len(lg) - 1, I(off), ty, size)

def set_cell(st, r, off, v, size):
    if isinstance(v, UndefT): return
    lg = st.mem.get(r.id, ())
    if lg and lg[-1][0] == 'C':
        d = dict(lg[-1][1]); d[off] = (v, size); st.mem[r.id] = lg[:-1] + (('C', d),)
    else:
        st.mem[r.id] = lg + (('C', {off: (v, size)}),)

def dead(r, off, size, like):
    if isinstance(like, T): return garbage(r, I(off), {'R': DOUBLE if size == 8 else FLOAT, 'I': Ty('int', size * 8), 'B': I1}[like.sort], size)
    return UNDEF

def get_cell(cx, st, r, off, size, like=None):
    lg = st.mem.get(r.id, ())
    if not lg: return dead(r, off, size, like)
    # the cell was installed at iteration start, so a plain walk finds it
    i = len(lg) - 1
    e = lg[i]
    if e[0] == 'C' and off in e[1]: return e[1][off][0]
    # guarded stores on top
    def walk(i):
        if i < 0: return dead(r, off, size, like)
        e = lg[i]
        if e[0] == 'C':
            if off in e[1]: return e[1][off][0]
            return walk(i - 1)
        if e[0] == 'S':
            d = cx.decide(st, eq(e[1], I(off)))
            if d is False: return walk(i - 1)
            if d is True: return vite(e[4], e[3], walk(i - 1)) if e[4] is not TRUE else e[3]
            return vite(and_(e[4], eq(e[1], I(off))), e[3], walk(i - 1))
        raise Unsupported('cell under a loop write')
    return walk(i)

def arr_base(name, r):
    def base(cx, st, off, ty, size):
        if ty.k in ('double', 'float'): return app(name, [exact_div(off, size)], 'R')
        if ty.k == 'int':
            return app('%s.i%d' % (name, ty.a), [exact_div(off, size)], 'I')
        if ty.k == 'ptr': return Ptr(carr_region(name, exact_div(off, size)), 0)
        raise Unsupported('carried array read of %r' % ty)
    return base
_cr = {}
def carr_region(name, idx):
    key = (name, idx)
    if key not in _cr:
        _cr[key] = Region('%s[%s]' % (name, idx), None, None, {'carried': name})
    return _cr[key]

def mentions(t, un):
    """does the value mention an unsolved carried symbol"""
    if isinstance(t, Ptr): 
        if t.r.meta.get('carried') in un: return True
        return mentions(t.o, un)
    if isinstance(t, PIte): return mentions(t.c, un) or mentions(t.a, un) or mentions(t.b, un)
    if not isinstance(t, T): return False
    if any(v in un for v in fv(t)): return True
    names = {u for u in un if isinstance(u, str)}
    if names:
        for a in atoms_of(t, ('app',)):
            n = a.args[0]
            if isinstance(n, str) and (n in names or n.split('.i')[0] in names): return True
    return False

def ptr_sym(cx, c):
    """offset of a carried pointer in a first pass: whole elements from where it starts"""
    ty = c.init.r.meta.get('elem')
    return add(c.init.o, mul(c.sym, I(cx.m.sizeof(ty)))) if ty is not None else c.sym
def solve_scalar(cx, c, nxt, k, un, s1, base):
    init = c.init; ka = as_atom(k)
    if isinstance(init, Ptr) and isinstance(nxt, Ptr) and nxt.r is init.r:
        d = sub(nxt.o, ptr_sym(cx, c))
        if cval(d) == 0: c.closed = lambda kk: init; return True
        if not mentions(d, un) and ka not in fv(d):
            c.closed = lambda kk: Ptr(init.r, add(init.o, mul(d, I(kk)))); return True
        return False
    if isinstance(init, Ptr): return False
    if not isinstance(init, T):
        if same(init, nxt): c.closed = lambda kk: init; return True
        if isinstance(init, UndefT):
            # value written before it is read: track the last written value
            if isinstance(nxt, T) and not mentions(nxt, un):
                def cl(kk, nxt=nxt):
                    if cval(kk) == 0: return UNDEF
                    return subst(nxt, {ka: sub(kk, I(1))})
                c.closed = cl; c.latch = True; return True
            if isinstance(nxt, UndefT): c.closed = lambda kk: UNDEF; return True
            if is_ptr(nxt) and not mentions(nxt, un):
                c.closed = lambda kk, nxt=nxt: vsubst(nxt, {ka: sub(kk, I(1))}); return True
            return False
        if type(init).__name__ == 'PInt' and type(nxt).__name__ == 'PInt' and same(init.p, nxt.p):
            c.closed = lambda kk: init; return True
        return False
    sym = c.sym
    if not isinstance(nxt, T): return False
    if nxt.sort != init.sort:
        return False
    if init.sort in 'IR':
        d = push_delta(nxt, sym) if init.sort == 'R' else sub(nxt, sym)
        if cval(d) == 0: c.closed = lambda kk: init; return True
        if not mentions(d, un):
            if ka not in fv(d):
                if init.sort == 'I': c.closed = lambda kk: add(init, mul(d, I(kk)))
                else: c.closed = lambda kk: add(init, mul(d, to_real(I(kk))))
                return True
            if init.sort == 'R':
                j = fresh('j', 'I')
                body = subst(d, {ka: j})
                c.closed = lambda kk: add(init, sum_(j, I(0), I(kk), body))
                return True
            if init.sort == 'I':
                j = fresh('j', 'I'); body = subst(d, {ka: j})
                nm = atom(mk('app', ('isum', sum_key(j, body)), 'I')) if False else None
        # max / conditional latch
        a = as_atom(nxt)
        if a is not None and a.op == 'ite' and init.sort == 'R':
            cnd, x, y = a.args
            for v, oth, cc in ((x, y, cnd), (y, x, not_(cnd))):
                if oth is sym and not mentions(v, un):
                    # nxt = cc ? v : sym ;  cc == (sym < v)
                    if cc is lt(sym, v) or cc is le(sym, v):
                        j = fresh('j', 'I'); body = subst(v, {ka: j})
                        c.closed = lambda kk: fmax(init, maxred(j, I(0), I(kk), body)) if cval(I(kk)) != 0 else init
                        return True
            if False: pass
        if a is not None and a.op == 'max' and init.sort == 'R':
            x, y = a.args
            v = y if x is sym else x if y is sym else None
            if v is not None and not mentions(v, un):
                j = fresh('j', 'I'); body = subst(v, {ka: j})
                c.closed = lambda kk: fmax(init, maxred(j, I(0), I(kk), body)) if cval(I(kk)) != 0 else init
                return True
    # value recomputed in every iteration
    if not mentions(nxt, un):
        def cl(kk):
            kk = I(kk)
            if cval(kk) == 0: return init
            return ite(eq(kk, I(0)), init, subst(nxt, {ka: sub(kk, I(1))}))
        c.closed = cl; c.latch = True; return True
    return False

def parallel_acc(c, k):
    """a private accumulator of a worksharing loop has a schedule-dependent value inside an iteration: only
    its total after the loop is known. Anything that is neither invariant nor the loop variable is treated so."""
    v = c.closed(k)
    if not isinstance(v, T):
        return
    if as_atom(k) not in fv(v): return
    if c.kind == 'phi' and 'omp.iv' in c.key: return
    c.acc = True
    if c.latch:
        h = fresh('any', v.sort); c.closed = lambda kk: h

def latch_scalars(cx, sc, e1, s1, regs, k, un):
    """a local overwritten in some iterations only (conditional latch): its value after the loop is left arbitrary"""
    ka = as_atom(k); done = False
    for key, c in sc.items():
        if c.closed or c.kind != 'cell' or not isinstance(c.init, T) or c.init.sort not in 'IR': continue
        if not regs[c.key[0]].meta.get('alloca'): continue
        nxt = get_cell(cx, s1, regs[c.key[0]], c.key[1], c.size, c.init)
        if not isinstance(nxt, T) or mentions(nxt, {u for u in un if u is not as_atom(c.sym)}): continue
        n = 'hv!%d' % next(_acount)
        args = sorted((v for v in fv(nxt) | fv(c.init) if v is not ka and v is not as_atom(c.sym) and v.sort in 'IR'), key=lambda v: v.id)
        c.closed = lambda kk, c=c, n=n, args=args: c.init if cval(I(kk)) == 0 else app(n, [atom(v) for v in args] + [I(kk)], c.init.sort)
        c.latch = True; done = True
    return done

def map_entries(lg):
    out = []
    for e in lg:
        if e[0] == 'C':
            for o, (v, s) in e[1].items(): out.append(('M', (), I(o), s, v, TRUE))
        elif e[0] == 'S': out.append(('M', (), e[1], e[2], e[3], e[4]))
        elif e[0] == 'M': out.append(e)
        else: return None
    return out

def replace_reads(v, name, fn):
    """replace app(name, idx) nodes in value v using fn(app node)->poly"""
    if isinstance(v, T):
        aps = [a for a in atoms_of(v, ('app',)) if isinstance(a.args[0], str) and (a.args[0] == name or a.args[0].startswith(name + '.i'))]
        if not aps: return v
        mp = {a: fn(a) for a in aps}
        return subst_nodes(v, mp)
    if isinstance(v, Ptr):
        if v.r.meta.get('carried') == name: raise Unsupported('pointer array carried')
        return Ptr(v.r, replace_reads(v.o, name, fn))
    return v

def subst_nodes(t, mp, memo=None):
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t in mp: r = mp[t]
    elif t.op == 'poly':
        r = const(0, t.sort)
        for m, c in t.args[0]:
            u = const(c, t.sort)
            for a, e in m:
                s = subst_nodes(a, mp, memo)
                if e < 0: s = recip(s); e = -e
                for _ in range(e): u = mul(u, s)
            r = add(r, u)
    elif t.op == 'var' or not any(isinstance(a, T) for a in t.args): r = atom(t) if t.sort in 'IR' else t
    else:
        na = [subst_nodes(a, mp, memo) if isinstance(a, T) and not (t.op in ('sum', 'maxred') and i == 2) and not (t.op == 'all' and i == 0) else a for i, a in enumerate(t.args)]
        r = rebuild(t, na)
    memo[t] = r
    return r

def solve_array(ex, cx, a, r, rid, st, s1, k, un, base, trip, par=None):
    ka = as_atom(k)
    name = a['name']
    lg = s1.mem.get(rid, ())
    if not lg and (r.meta.get('alloca') or not base.mem.get(rid, ())):
        a['closed'] = lambda kk: (); return True      # lifetime ended inside the iteration
    if not lg or lg[0][0] != 'X' or lg[0][2] != name:
        return False
    ents = map_entries(lg[1:])
    log0 = base.mem.get(rid, ())
    if ents is None:
        if par: return False
        return pointwise(cx, a, r, rid, s1, k, un, log0, lg, a.setdefault('es', elem_of(cx, r, base, lg)))
    if not ents:
        a['closed'] = lambda kk: log0; return True
    other = {u for u in un if u != name}
    for e in ents:
        if mentions(e[2], un) or mentions(e[5], un) and (mentions(e[5], other)): return False
        if mentions(e[4], other): return False
        for v, n in e[1]:
            if mentions(n, un): return False
    hy = tuple(st.hyps())
    # (a) map rule: addresses of different iterations are disjoint, and reads of this array see only
    #     cells this iteration owns or nobody writes
    j = fresh('j', 'I'); ja = as_atom(j)
    jh = (ge(j, I(0)), lt(j, k))
    def inst(e, kv):
        mp = {}; cond = TRUE
        for v, n in e[1]:
            w = fresh('m', 'I'); mp[as_atom(v)] = w
            cond = and_(cond, ge(w, I(0)), lt(w, subst(n, mp)))
        mp[ka] = kv
        off = subst(e[2], mp); cond = and_(cond, subst_safe(e[5], mp, name))
        cond = subst(cond, {ka: kv})
        return off, cond
    def disjoint(off, size, h):
        """off not written by iteration j"""
        for e in ents:
            o2, c2 = inst(e, j)
            if not cx.pv.valid(hy + jh + h + (c2,), or_(le(add(off, I(size)), o2), le(add(o2, I(e[3])), off))):
                return False
        return True
    ok = True
    for e in ents:
        o1, c1 = inst(e, k)
        if not disjoint(o1, e[3], (c1,)): ok = False; break
    if ok:
        def fn(node, h):
            idx = node.args[1]
            if not disjoint(mul(idx, I(es_of(ents))), es_of(ents), h): raise Restart()
            return read_log(cx, st, r, log0, mul(idx, I(es_of(ents))), node)
        try:
            ne_ = []
            for e in ents:
                mp = {}; h = TRUE
                for v, n in e[1]: h = and_(h, ge(v, I(0)), lt(v, n))
                v2 = replace_reads(e[4], name, lambda nd: fn(nd, (h,)))
                c2 = replace_reads(e[5], name, lambda nd: fn(nd, (h,)))
                ne_.append((e[1], e[2], e[3], v2, c2))
            def closed(kk):
                out = log0
                kk = I(kk)
                if cval(kk) == 0: return log0
                for kv, off, size, v, c in ne_:
                    q = fresh('q', 'I'); mp = {ka: q}
                    kv2 = []
                    for w, n in kv:
                        w2 = fresh('q', 'I'); kv2.append((w2, subst(n, mp))); mp[as_atom(w)] = w2
                    off2 = subst(off, mp)
                    if as_atom(q) not in fv(off2):
                        # same address in every iteration cannot happen here (disjointness)
                        pass
                    out = out + (('M', ((q, kk),) + tuple(kv2), off2, size, vsubst(v, mp), subst(c, mp)),)
                return out
            a['closed'] = closed
            return True
        except Restart:
            pass
    if par: return False
    return pointwise(cx, a, r, rid, s1, k, un, log0, lg, es_of(ents))

def solve_joint(ex, cx, arrays, regs, st, s1, k, un, base, par):
    """map rule for several arrays at once: every iteration writes its own cells and reads, of these arrays, only
    cells no earlier iteration has written"""
    ka = as_atom(k)
    todo = {}
    for rid, a in arrays.items():
        if a['closed'] is not None: continue
        lg = s1.mem.get(rid, ())
        if not lg or lg[0][0] != 'X' or lg[0][2] != a['name']: return False
        ents = map_entries(lg[1:])
        if not ents: return False
        todo[a['name']] = (rid, a, ents, base.mem.get(rid, ()))
    if len(todo) < 2: return False
    other = {u for u in un if u not in todo}
    for n, (rid, a, ents, log0) in todo.items():
        for e in ents:
            if mentions(e[2], un) or mentions(e[5], other) or mentions(e[4], other): return False
            for v, q in e[1]:
                if mentions(q, un): return False
    hy = tuple(st.hyps())
    j = fresh('j', 'I'); jh = (ge(j, I(0)), lt(j, k))
    def inst(e, kv):
        mp = {}; cond = TRUE
        for v, q in e[1]:
            w = fresh('m', 'I'); mp[as_atom(v)] = w
            cond = and_(cond, ge(w, I(0)), lt(w, subst(q, mp)))
        mp[ka] = kv
        return subst(e[2], mp), cond
    def disjoint(n, off, size, h):
        for e in todo[n][2]:
            o2, c2 = inst(e, j)
            if not cx.pv.valid(hy + jh + h + (c2,), or_(le(add(off, I(size)), o2), le(add(o2, I(e[3])), off))): return False
        return True
    for n, (rid, a, ents, log0) in todo.items():
        for e in ents:
            o1, c1 = inst(e, k)
            if not disjoint(n, o1, e[3], (c1,)): return False
    res = {}
    try:
        for n, (rid, a, ents, log0) in todo.items():
            ne_ = []
            for e in ents:
                h = TRUE
                for v, q in e[1]: h = and_(h, ge(v, I(0)), lt(v, q))
                v2, c2 = e[4], e[5]
                for n2, (rid2, a2, ents2, log2) in todo.items():
                    def fn(node, n2=n2, rid2=rid2, ents2=ents2, log2=log2, h=h):
                        es = es_of(ents2); off = mul(node.args[1], I(es))
                        if not disjoint(n2, off, es, (h,)): raise Restart()
                        return read_log(cx, st, regs[rid2], log2, off, node)
                    v2 = replace_reads(v2, n2, fn); c2 = replace_reads(c2, n2, fn)
                ne_.append((e[1], e[2], e[3], v2, c2))
            res[n] = ne_
    except Restart:
        return False
    def mkclosed(log0, ne_):
        def closed(kk):
            kk = I(kk)
            if cval(kk) == 0: return log0
            out = log0
            for kv, off, size, v, c in ne_:
                q = fresh('q', 'I'); mp = {ka: q}; kv2 = []
                for w, n in kv:
                    w2 = fresh('q', 'I'); kv2.append((w2, subst(n, mp))); mp[as_atom(w)] = w2
                out = out + (('M', ((q, kk),) + tuple(kv2), subst(off, mp), size, vsubst(v, mp), subst(c, mp)),)
            return out
        return closed
    for n, (rid, a, ents, log0) in todo.items(): a['closed'] = mkclosed(log0, res[n])
    return True

def elem_of(cx, r, base, lg):
    return cx.m.sizeof(r.meta['elem']) if r.meta.get('elem') else 8

def pointwise(cx, a, r, rid, s1, k, un, log0, lg, size):
    """(b) pointwise reduction: value after the iteration = value before + g(index, k)"""
    ka = as_atom(k); name = a['name']
    z = fresh('z', 'I'); za = as_atom(z)
    off = mul(z, I(size))
    s2 = s1.copy(); s2.fact(ge(z, I(0)))
    if r.size is not None: s2.assume(le(add(off, I(size)), I(r.size)))
    V = _read(cx, s2, r, len(s2.mem[rid]) - 1, off, DOUBLE if size == 8 else FLOAT, size)
    cur = app(name, [z], 'R')
    if not isinstance(V, T): return False
    d = push_delta(V, cur, za)
    if DBG: print('PW', a['name'], show(V, 3000), '\n =>', show(d, 3000), mentions(d, un), un)
    if mentions(d, un): return False
    def base_read(cx_, st_, off_, ty_, size_):
        return _read_log(cx_, st_, r, log0, off_, ty_, size_)
    st0 = s1
    jj = fresh('j', 'I')
    body = subst(d, {ka: jj})
    dep = ka in fv(d)
    da = as_atom(d)
    loc = implied_eq(da.args[0], za) if da is not None and da.op == 'ite' and cval(da.args[2]) == 0 else None
    if loc is not None and ka in fv(loc): loc = None
    def closed(kk):
        kk = I(kk)
        if loc is not None:
            # one fixed cell accumulates
            b1 = subst(body, {za: loc})
            inc = sum_(jj, I(0), kk, b1) if as_atom(jj) in fv(b1) else mul(b1, to_real(kk))
            off_ = mul(loc, I(size))
            return log0 + (('S', off_, size, add(base_read(cx, st0, off_, DOUBLE if size == 8 else FLOAT, size), inc), TRUE),)
        def X(cx_, st_, off_, ty_, size_):
            zi = exact_div(off_, size)
            if dep:
                inc = sum_(jj, I(0), kk, subst(body, {za: zi}))
            else:
                inc = mul(subst(d, {za: zi}), to_real(kk))
            return add(base_read(cx_, st_, off_, ty_, size_), inc)
        return log0 + (('X', X, None),)
    a['closed'] = closed
    return True

def push_delta(V, cur, za=None):
    """V - cur, pushed into ite leaves so that the old value cancels; a branch guarded by za == e sees cur at e"""
    a = as_atom(V)
    if a is not None and a.op == 'ite':
        c = a.args[0]
        if za is not None:
            e = implied_eq(c, za)
            if e is not None:
                mp = {za: e}
                return ite(c, push_delta(subst(a.args[1], mp), subst(cur, mp)), push_delta(a.args[2], cur, za))
            e = implied_eq(not_(c), za)
            if e is not None:
                mp = {za: e}
                return ite(c, push_delta(a.args[1], cur, za), push_delta(subst(a.args[2], mp), subst(cur, mp)))
        return ite(c, push_delta(a.args[1], cur, za), push_delta(a.args[2], cur, za))
    return sub(V, cur)

def implied_eq(c, za):
    """e such that c implies za == e"""
    if c.op == 'eq' and c.args[0].sort == 'I': return solve_lin(c.args[0], za)
    if c.op == 'and':
        for x in c.args:
            e = implied_eq(x, za)
            if e is not None: return e
    if c.op == 'or':
        es = [implied_eq(x, za) for x in c.args]
        if es and es[0] is not None and all(x is es[0] for x in es): return es[0]
    return None

def solve_lin(p, v):
    """v as a polynomial from p == 0 when v occurs once, linearly, and the result is integral"""
    k = None; rest = {}
    for m, c in items(p):
        if m == ((v, 1),): k = c
        elif any(v is x or v in fv(x) for x, e in m): return None
        else: rest[m] = c
    if not k: return None
    r = {m: -c / k for m, c in rest.items()}
    if any(c.denominator != 1 for c in r.values()): return None
    return tm._poly(r, 'I')

def subst_safe(c, mp, name): return subst(c, mp)

def es_of(ents):
    s = {e[3] for e in ents}
    if len(s) != 1: raise Unsupported('mixed element sizes')
    return s.pop()

def _read_log(cx, st, r, lg, off, ty, size):
    s = st.copy(); s.mem[r.id] = lg
    v = _read(cx, s, r, len(lg) - 1, off, ty, size)
    for f in s.facts: st.fact(f)
    return v

def read_log(cx, st, r, lg, off, node):
    n = node.args[0]
    if '.i' in n: ty = Ty('int', int(n.rsplit('.i', 1)[1])); size = ty.a // 8
    else: ty = DOUBLE; size = 8
    return _read_log(cx, st, r, lg, off, ty, size)

def install(cx, st, env, sc, arrays, regs, kk, inside=False):
    for key, c in sc.items():
        v = c.sym if inside and c.acc and c.sym is not None else c.closed(kk)
        if c.kind == 'phi': env[c.key] = v
        else: set_cell(st, regs[c.key[0]], c.key[1], v, c.size)
    for rid, a in arrays.items():
        st.mem[rid] = a['closed'](kk)

def state_subst(cx, s, mp):
    n = State()
    n.pc = tuple(subst(c, mp) for c in s.pc); n.facts = tuple(subst(c, mp) for c in s.facts)
    n.ghost = dict(s.ghost); n.omp = s.omp
    for rid, lg in s.mem.items():
        out = []
        for e in lg:
            if e[0] == 'C': out.append(('C', {o: (vsubst_any(v, mp), z) for o, (v, z) in e[1].items()}))
            elif e[0] == 'S': out.append(('S', subst(e[1], mp), e[2], vsubst_any(e[3], mp), subst(e[4], mp)))
            elif e[0] == 'M': out.append(('M', tuple((v, subst(N, mp)) for v, N in e[1]), subst(e[2], mp), e[3], vsubst_any(e[4], mp), subst(e[5], mp)))
            else:
                fn = e[1]
                def X(cx_, st_, off_, ty_, size_, fn=fn):
                    v = fn(cx_, st_, off_, ty_, size_)
                    return vsubst_any(v, mp) if v is not None else None
                out.append(('X', X, None))
        n.mem[rid] = tuple(out)
    return n

# ---------------------------------------------------------------- trip counts
def exit_dest(f, header, blocks):
    return [s for s in f.blocks[header].succ if s not in blocks]

def has_header_exit(f, header, blocks): return bool(exit_dest(f, header, blocks))

def is_header_exit(f, header, o):
    return o[1] == header

def find_trip(ex, f, header, blocks, st, env, k, sc, cx):
    t = f.blocks[header].insts[-1]
    if t.op != 'br' or t.a[0] is None: return None
    inside = [x in blocks for x in (t.a[1], t.a[2])]
    if inside[0] == inside[1]: return None
    cx.mute += 1; cx.mute_canon += 1
    try:
        s = st.copy(); e = dict(env)
        for ins in f.blocks[header].insts:
            if ins.op == 'phi': continue
            if ins.op == 'br': break
            if ins.op == 'call':
                r = ex.do_call(f, 0, ins, s, e)
                if len(r) != 1: return None
                s = r[0][0]
                if ins.res is not None: e[ins.res] = r[0][1]
                continue
            ex.inst(f, ins, s, e)
        c = ex.val(I1, t.a[0], e, s)
    finally:
        cx.mute -= 1; cx.mute_canon -= 1
    if not isinstance(c, T): return None
    if not inside[0]: c = not_(c)
    ka = as_atom(k)
    # carried symbols must not occur
    un = set()
    for q in sc.values():
        if not q.closed and q.sym is not None: un.add(as_atom(q.sym) if isinstance(q.sym, T) and q.sym.sort in 'IR' else q.sym)
    if mentions(c, un): return None
    if ka not in fv(c): return None
    hy = st.hyps()
    def lin(d):
        """d = n0 - s*k"""
        kk = Fraction(0); rest = {}
        for m, q in items(d):
            if any(ka is a for a, e in m) or any(ka in fv(a) for a, e in m):
                if m == ((ka, 1),): kk = q
                else: return None
            else: rest[m] = q
        return tm._poly(rest, 'I'), -kk
    if c.op == 'lt':
        l = lin(sub(c.args[1], c.args[0]))
        if l is None or l[1] <= 0: return None
        n0, s = l       # continue iff s*k < n0
        if s == 1:
            if cx.pv.valid(hy, ge(n0, I(0))): return n0
            return ite(lt(n0, I(0)), I(0), n0)
        if div_ok(n0, s): q = exact_div(n0, s)
        elif cx.pv.valid(hy, eq(imod(n0, I(s)), I(0))): q = idiv(n0, I(s))
        else: q = idiv(add(n0, I(s - 1)), I(s))
        if cx.pv.valid(hy, ge(n0, I(0))): return q
        return ite(lt(n0, I(1)), I(0), q)
    if c.op == 'not' and c.args[0].op == 'eq':
        d = c.args[0].args[0]
        l = lin(d)
        if l is None: return None
        n0, s = l
        if s < 0: n0, s = neg(n0), -s
        if s == 1: q = n0
        elif div_ok(n0, s): q = exact_div(n0, s)
        elif cx.pv.valid(hy, eq(imod(n0, I(s)), I(0))): q = idiv(n0, I(s))
        else: return None
        if cx.pv.valid(hy, ge(n0, I(0))): return q
        cx.oblige('loop', 'loop at %s: the != bound is reachable' % where(cx, f, header), st, ge(n0, I(0)))
        return q
    if c.op == 'and':
        return None
    return None

def finish_noback(ex, f, depth, header, blocks, st0, env0):
    outs = fork(ex, f, depth, header, blocks, st0.copy(), dict(env0))
    return [o for o in outs if o[0] != header]

# ---------------------------------------------------------------- OpenMP
def race_check(cx, f, header, tr, ka, trip, max_region_id, base, par, sc):
    k1 = fresh('i1', 'I'); k2 = fresh('i2', 'I')
    writes = [t for t in tr if t[0] == 'w' and t[1].id <= max_region_id and not (par.get('wm') and t[1].id > par['wm'])]
    seen = set()
    for w in writes:
        for a in tr:
            if a[1] is not w[1] : continue
            key = (w[1].id, w[2], w[3], a[0], a[2], a[3], frozenset(w[4]), frozenset(a[4]))
            if key in seen: continue
            seen.add(key)
            # instance 1 of w at k1, instance 2 of a at k2 (inner variables renamed apart)
            m1 = {ka: k1}; m2 = {ka: k2}
            base_h = set(base.hyps())
            for h in w[4]:
                for v in fv(h): 
                    if v not in m1 and isinstance(v.args[0], str) and v.args[0].startswith(('it!', 'j!', 'm!')): m1[v] = fresh('x', v.sort)
            for h in a[4]:
                for v in fv(h):
                    if v not in m2 and isinstance(v.args[0], str) and v.args[0].startswith(('it!', 'j!', 'm!')): m2[v] = fresh('x', v.sort)
            hy = [subst(h, m1) for h in w[4]] + [subst(h, m2) for h in a[4]] + [ne(k1, k2)]
            o1 = subst(w[2], m1); o2 = subst(a[2], m2)
            st = State(); st.facts = tuple(dict.fromkeys(hy))
            cx.oblige('race', 'parallel loop at %s: %s and %s of %s in different iterations never overlap' %
                      (where(cx, f, header), w[5], a[5], w[1].name), st,
                      or_(le(add(o1, I(w[3])), o2), le(add(o2, I(a[3])), o1)))
