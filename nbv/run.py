"""Check runner: extraction -> contract sections (verifier) + concrete harness (replay / bounded stand-in) -> verdict, evidence."""
import os, sys, json, time, re, traceback, multiprocessing as mp, importlib, subprocess, shutil, threading, resource, tempfile, queue
sys.setrecursionlimit(200000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import frontend, harness
from .frontend import REPO

class Sec:
    """one section of a property's contracts"""
    def __init__(self, name, mod, tier):
        self.name = name; self.m = mod; self.tier = tier
        self.worlds = []; self.targets = []; self.notes = []; self.extra = []; self.assumptions = set(); self.stime = 0.0
    def world(self, timeout=10000):
        from .world import World
        w = World(self.m, timeout); self.worlds.append(w)
        w.cx.deadline = getattr(self, 'deadline', None)
        return w
    def target(self, *fns): 
        for f in fns:
            if f not in self.targets: self.targets.append(f)
    def assume(self, *a): self.assumptions.update(a)
    def note(self, s): self.notes.append(s)
    def record(self, name, st, how='', detail=''):
        """an obligation discharged outside a World (bit-vector, rational arithmetic back ends)"""
        self.extra.append(dict(kind='post', name=name, st=st, how=how, detail=str(detail)[:3000], strong=True))
        return st == 'proved'

def _child(name, fn, mod, tier, q, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)
    box = {}
    def body():
        from .ir import Unsupported
        from .terms import TooBig
        s = Sec(name, mod, tier); s.deadline = time.time() + limit
        err = None
        t0 = time.time()
        try:
            fn(s)
        except Unsupported as e: err = 'outside the verifier\'s reach: %s' % e; os.environ.get('NBV_TB') and traceback.print_exc()
        except TooBig as e: err = 'term size limit: %s' % e
        except RecursionError as e: err = 'recursion limit'
        except MemoryError: err = 'memory limit'
        except Exception as e: err = 'internal: %s: %s' % (type(e).__name__, str(e)[:200] + traceback.format_exc()[-1500:])
        try: box['r'] = summary(s, err, time.time() - t0)
        except Exception as e: box['r'] = dict(name=name, status='unknown', err='summary: ' + traceback.format_exc()[-800:], obls=[], targets=[], inlined=[], models=[], assumptions=[], notes=[], solver_time=0, wall=0, nq=0)
    t = threading.Thread(target=body); t.start(); t.join()
    q.put(box.get('r') or dict(name=name, status='unknown', err='crashed', obls=[], targets=[], inlined=[], models=[], assumptions=[], notes=[], solver_time=0, wall=0, nq=0))

def summary(s, err, wall):
    from .terms import atoms_of, show
    ob = list(s.extra); inl = set(); mod = set(); ass = set(s.assumptions); stime = s.stime; nq = 0
    for w in s.worlds:
        cx = w.cx
        # a loop whose invariant does not fit (rewritten loop): what follows was judged on a state the invariant describes, so a refutation decides nothing
        loose = any(o.kind == 'inv' and not o.res for o in cx.obls)
        for o in cx.obls:
            strong = not loose and o.kind != 'inv' and not (o.res.goal is not None and (atoms_of(o.res.goal, ('sum', 'maxred', 'sqrt', 'inv')) or False))
            d = dict(kind=o.kind, name=o.name, st=o.res.st, how=o.res.how, strong=strong)
            if not o.res:
                d['detail'] = 'goal: %s\nresidual: %s\nmodel: %s\nhyps: %s' % (show(o.goal, 1500), show(o.res.goal, 1500) if o.res.goal is not None else '', (o.res.model or '')[:1500], '; '.join(show(h, 200) for h in o.hyps)[:2000])
            ob.append(d)
        inl |= {cx.dem(n) for n in cx.inlined}; mod |= set(cx.called_models); ass |= set(cx.assumptions)
        stime += cx.pv.solver_time; nq += cx.pv.nq
    nposts = sum(o['kind'] in ('post', 'contract', 'inv') for o in ob)
    if any(o['st'] == 'refuted' for o in ob): st = 'refuted'
    elif err or any(o['st'] != 'proved' for o in ob): st = 'unknown'
    elif nposts == 0: st = 'unknown'; err = 'vacuous: no contract obligation was generated'
    else: st = 'proved'
    return dict(name=s.name, status=st, err=err, obls=ob, targets=s.targets, inlined=sorted(inl), models=sorted(mod),
                assumptions=sorted(ass), notes=s.notes, solver_time=round(stime, 2), wall=round(wall, 2), nq=nq)

def run_sections(secs, mod, tier, limit, par=6, total=None):
    start = time.time()
    ctx = mp.get_context('fork')
    pend = list(secs); live = []; out = {}
    while pend or live:
        while pend and len(live) < par:
            name, fn = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_child, args=(name, fn, mod, tier, q, limit)); p.start()
            live.append((name, p, q, time.time()))
        time.sleep(0.05)
        nl = []
        for name, p, q, t0 in live:
            r = None
            try: r = q.get_nowait()
            except queue.Empty: pass
            if r is None and not p.is_alive():
                try: r = q.get(timeout=1)
                except queue.Empty: r = dict(name=name, status='unknown', err='section process ended (code %s)' % p.exitcode)
            if r is None and total and time.time() - start > total:
                p.kill(); r = dict(name=name, status='unknown', err='time limit of the check (%ds)' % total)
            if r is None and time.time() - t0 > limit:
                p.kill(); r = dict(name=name, status='unknown', err='time limit %ds' % limit)
            if r is None: nl.append((name, p, q, t0)); continue
            for k, v in dict(obls=[], targets=[], inlined=[], models=[], assumptions=[], notes=[], solver_time=0, wall=round(time.time() - t0, 2), nq=0).items(): r.setdefault(k, v)
            out[name] = r
            p.join(2)
            if p.is_alive(): p.kill()
        live = nl
    return [out[n] for n, _ in secs]

BASE_TRUST = ['clang 18 front end and LLVM passes sroa, early-cse, simplifycfg, loop-simplify (source -> IR)',
              'the verifier in /verif/nbv (IR parser, symbolic executor, loop summariser, polynomial normaliser)',
              'z3 (python3-vt z3-solver)']
BASE_ASSUME = ['double arithmetic treated as exact real arithmetic, except where a section says bit-exact floating point',
               'no exceptions (allocation succeeds or aborts)', 'volatile treated as ordinary memory',
               'body counts below 2^28, object sizes below 2^40 elements, so size_t products of sizes do not wrap']

def findings(pid):
    out = []
    p = ROOT + '/known-findings.json'
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get('property') == pid and e.get('status') == 'known': out.append(e)
    return out

def main(argv):
    pid = argv[0]; tier = 'quick'; dev = False; onlysec = None
    a = argv[1:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--dev': dev = True
        elif x == '--sec': onlysec = a.pop(0); 
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, ROOT + '/contracts'); sys.path.insert(0, ROOT)
    mod = importlib.import_module('contracts.' + pid.lower())
    limit = getattr(mod, 'SEC_LIMIT', {'quick': 400, 'thorough': 3000})[tier]
    known = findings(pid)
    # concrete harness, in parallel with the extraction and the proof
    H = harness.Harness(pid, mod, tier, seed) if getattr(mod, 'HARNESS', None) and not (dev and onlysec) else None
    if H: H.start()
    secs = mod.sections(tier)
    if onlysec: secs = [s for s in secs if re.search(onlysec, s[0])]
    res = []; exerr = None; m = None
    if secs:
        try:
            m = frontend.cached_extract(**getattr(mod, 'EXTRACT', {})) if dev else frontend.extract(**getattr(mod, 'EXTRACT', {}))
        except frontend.ExtractError as e:
            exerr = str(e)
    t1 = time.time()
    if m is not None:
        left = max(60, min(limit, 840 - (t1 - t0)) if tier == 'quick' else limit)
        res = run_sections(secs, m, tier, left, total=780 - (t1 - t0) if tier == 'quick' else None)
    hr = H.finish() if H else None
    # ---------------------------------------------------------------- verdict
    fails = []; knownhit = []
    if hr:
        for f in hr['fails']:
            k = next((e for e in known if e.get('match') and re.search(e['match'], f)), None)
            if k: knownhit.append((k, f))
            else: fails.append(f)
    refuted = []
    for r in res:
        for o in r['obls']:
            if o['st'] == 'refuted':
                k = next((e for e in known if e.get('obligation') and re.search(e['obligation'], r['name'] + ': ' + o['name'])), None)
                if k: knownhit.append((k, o['name'])); o['known'] = True
                else: refuted.append((r, o))
    strong = [x for x in refuted if x[1]['strong']]
    rep = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
    rc = 0; lines = []
    path = os.path.join(rep, pid + '.txt')
    if os.path.exists(path): os.unlink(path)
    built = hr is None or hr['built']
    if fails or strong:
        with open(path, 'w') as f:
            f.write('property %s\n' % pid)
            for r, o in refuted:
                f.write('\nFAILED OBLIGATION [%s] %s (%s, %s)\n%s\n' % (r['name'], o['name'], o['kind'], o['how'], o.get('detail', '')))
            if fails:
                f.write('\nFAILING INPUTS (replayed against the real code built from /repo)\n')
                for x in fails[:50]: f.write(x + '\n')
                f.write('\nreproduce: %s\n' % hr['repro'])
        rc = 1
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if fails else ' no-failing-input-found'))
    for r in res:
        if r['status'] == 'refuted' and not r['err'] and all(o['st'] == 'proved' or o.get('known') for o in r['obls']): r['status'] = 'proved'
    nkn = sum(1 for r in res for o in r['obls'] if o.get('known'))
    nob = sum(len(r['obls']) for r in res) - nkn; ndis = sum(o['st'] == 'proved' for r in res for o in r['obls'])
    allproved = bool(res) and all(r['status'] == 'proved' for r in res) and not exerr
    bounded = getattr(mod, 'BOUNDED', [])
    for k, x in knownhit: lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    seen = set(); lines = [l for l in lines if not (l in seen or seen.add(l))]
    backs = {}
    for r in res:
        for o in r['obls']:
            if o['st'] == 'proved': backs[o['how']] = backs.get(o['how'], 0) + 1
    unk = [r for r in res if r['status'] == 'unknown']
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
               trusted_base=BASE_TRUST + ['library models: ' + ', '.join(sorted({base(x) for r in res for x in r['models']}))[:3000]] + list(getattr(mod, 'TRUST', [])),
               functions_under_contract=sorted({t for r in res for t in r['targets']}),
               functions_executed=sorted({base(x) for r in res for x in r['inlined'] if not x.startswith('std::') and '__gnu_cxx' not in x})[:400],
               back_ends=backs, solver_time_s=round(sum(r['solver_time'] for r in res), 2), solver_queries=sum(r['nq'] for r in res),
               sections=[dict(name=r['name'], status=r['status'], obligations=len(r['obls']), wall_s=r['wall'], solver_s=r['solver_time'], reason=r['err'], notes=r['notes']) for r in res],
               extraction='/repo sources recompiled on this run: ' + ', '.join(getattr(m, 'src_files', []) or [])[:2000] if m is not None else ('none' if not secs else 'failed: %s' % (exerr or '')[:500]),
               decided='proved' if allproved and not bounded else ('proved+bounded' if allproved else 'bounded (some obligations not discharged)'))
    if nkn: cov['obligations_refuted_by_known_findings'] = nkn
    if bounded: cov['bounded_standins'] = list(bounded)
    if unk: cov['bounded_this_run'] = ['%s: %s' % (r['name'], (r['err'] or 'undischarged: ' + ', '.join(o['name'] for o in r['obls'] if o['st'] != 'proved'))[:600]) for r in unk]
    if hr:
        cov.update(evaluations=hr['evals'], distinct_nontrivial=hr['evals'], rule='concrete cases run against the real code built from /repo (replay search and bounded stand-in; never counted as proof)', samples=hr['samples'][:8], harness_built=hr['built'])
        if hr['note']: cov['harness_note'] = hr['note'][:1500]
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'), coverage=cov,
              assumptions=BASE_ASSUME + list(getattr(mod, 'ASSUME', [])) + sorted({a for r in res for a in r['assumptions']}),
              violations=1 if rc else 0, wall_s=round(time.time() - t0, 1))
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for r in res:
        print('%-8s %-34s %4d obligations, %6.1fs wall, %6.1fs solver%s' % (r['status'], r['name'], len(r['obls']), r['wall'], r['solver_time'], ('  -- ' + r['err'][:300]) if r['err'] else ''))
        if dev or r['status'] != 'proved':
            for o in r['obls']:
                if o['st'] != 'proved' and not o.get('known'): print('     %s [%s] %s%s %s' % (o['st'], o['kind'], o['name'], '' if o['strong'] else ' (weak)', ('\n' + o.get('detail', ''))[:(2500 if dev else 0)]))
    if exerr: print('extraction failed: ' + exerr[:1500])
    if hr: print('harness: built=%s evaluations=%d fails=%d %s' % (hr['built'], hr['evals'], len(hr['fails']), hr['note'][:(2000 if not hr['built'] or dev else 200)]))
    for x in fails[:6]: print('   failing: ' + x[:300])
    for l in lines: print(l)
    print('%s %s: %s, %d/%d obligations, %.1fs' % (pid, tier, cov['decided'] if not rc else 'VIOLATION', ndis, nob, time.time() - t0))
    # no answer is better than a false "held": nothing could be extracted and nothing could be run
    if rc == 0 and (exerr or not res) and (hr is None or not hr['built']):
        print('no answer: neither the verifier nor the harness could process the tree'); return 2
    return rc

def base(d):
    from .symex import base_name
    try: return base_name(d)
    except Exception: return d
