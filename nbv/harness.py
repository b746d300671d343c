"""Concrete harness: the real sources of /repo, compiled on every run into a scratch directory and driven by /verif/harness/<id>.cpp."""
import os, subprocess, shutil, tempfile, threading, glob, re, concurrent.futures as cf
from .frontend import REPO, QT
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']

class Harness:
    def __init__(self, pid, mod, tier, seed):
        self.pid = pid; self.mod = mod; self.tier = tier; self.seed = seed
        self.res = dict(built=False, evals=0, fails=[], samples=[], note='', repro='')
    def start(self):
        self.t = threading.Thread(target=self.guard); self.t.start()
    def guard(self):
        try: self.run()
        except Exception as e: self.res['note'] += 'harness: %r' % e
    def finish(self):
        self.t.join(); return self.res
    def run(self):
        m = self.mod; d = tempfile.mkdtemp(prefix='nbh.', dir='/tmp')
        try:
            src = ROOT + '/harness/' + m.HARNESS
            tus = getattr(m, 'HARNESS_TUS', None)
            srcs = [f for f in sorted(glob.glob(REPO + '/nbody/*.cpp')) if 'cuda' not in f]
            if not getattr(m, 'HARNESS_OPENCL', False): srcs = [f for f in srcs if 'opencl' not in f]
            for q in getattr(m, 'HARNESS_QRC', []):
                r = subprocess.run(['rcc', REPO + '/' + q, '-o', d + '/qrc_' + os.path.basename(q) + '.cpp', '-name', os.path.splitext(os.path.basename(q))[0]], capture_output=True, text=True)
                if r.returncode: self.res['note'] = 'resources: ' + r.stderr[:500]; return
            if tus is not None: srcs = [f for f in srcs if os.path.basename(f) in tus]
            srcs += [REPO + '/' + x for x in getattr(m, 'HARNESS_EXTRA', [])]
            srcs += sorted(glob.glob(d + '/qrc_*.cpp'))
            defs = ['-DHAVE_OPENMP', '-DNBODY_EXPORT_DLL', '-DQT_NO_DEBUG', '-DNBV_REPO="%s"' % REPO] + (['-DHAVE_OPENCL', '-DHAVE_OPENCL2'] if getattr(m, 'HARNESS_OPENCL', False) else [])
            flags = ['-std=gnu++11', '-O1', '-fopenmp', '-fPIC', '-w', '-ffp-contract=off'] + (SAN if getattr(m, 'SANITIZE', True) else []) + list(getattr(m, 'HARNESS_FLAGS', []))
            incs = ['-I' + ROOT + '/harness', '-I' + REPO + '/nbody', '-I' + REPO, '-I' + QT, '-I' + QT + '/QtGui', '-I' + QT + '/QtCore', '-I' + QT + '/QtWidgets']
            def one(s):
                o = '%s/%s.o' % (d, os.path.basename(s))
                r = subprocess.run(['g++'] + flags + defs + incs + ['-c', s, '-o', o], capture_output=True, text=True)
                return (o, '') if r.returncode == 0 else (None, '%s: %s' % (os.path.basename(s), r.stderr[:1500]))
            with cf.ThreadPoolExecutor(6) as ex: os_ = list(ex.map(one, [src] + srcs))
            bad = [e for o, e in os_ if o is None]
            if bad:
                self.res['note'] = 'harness does not compile: ' + ' | '.join(bad)[:1500]; return
            exe = d + '/h'
            libs = ['-lQt5Gui', '-lQt5Core'] + (['-lOpenCL'] if getattr(m, 'HARNESS_OPENCL', False) and not getattr(m, 'HARNESS_QRC', []) else []) + list(getattr(m, 'HARNESS_LIBS', []))
            r = subprocess.run(['g++'] + flags + [o for o, _ in os_] + ['-o', exe] + libs, capture_output=True, text=True)
            if r.returncode:
                self.res['note'] = 'harness does not link: ' + r.stderr[:1500]; return
            self.res['built'] = True
            self.res['repro'] = 'the harness %s, compiled with g++ %s against %s (case named above; seed %d, tier %s)' % (src, ' '.join(flags), REPO + '/nbody', self.seed, self.tier)
            w = d + '/work'; os.mkdir(w)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0', OMP_NUM_THREADS='4', QT_LOGGING_RULES='*=false', NBV_REPO=REPO)
            groups = getattr(m, 'HARNESS_GROUPS', None) or ['all']
            lim = 500 if self.tier == 'quick' else 3000
            def rung(g):
                gw = '%s/%s' % (w, g); os.mkdir(gw)
                try:
                    r = subprocess.run([exe, self.tier, str(self.seed), g, gw], capture_output=True, cwd=gw, env=env, timeout=lim)
                    return g, r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
                except subprocess.TimeoutExpired as e:
                    return g, 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')
            with cf.ThreadPoolExecutor(4) as ex: outs = list(ex.map(rung, groups))
            for g, rc, so, se in outs:
                last = ''
                for l in so.split('\n'):
                    if l.startswith('FAIL '): self.res['fails'].append(l[5:])
                    elif l.startswith('EVALS '): self.res['evals'] += int(l.split()[1])
                    elif l.startswith('SAMPLE '): self.res['samples'].append(l[7:300])
                    elif l.startswith('CASE '): last = l[5:]
                if rc == 'timeout':
                    # a hang in a case that finishes on the verified tree is a failure of that case only when the harness says so
                    self.res['note'] += 'group %s: time limit in case %s; ' % (g, last)
                    if getattr(m, 'HANG_IS_FAILURE', True): self.res['fails'].append('%s: does not terminate: %s' % (g, last))
                elif rc != 0 and 'DONE' not in so:
                    self.res['fails'].append('%s: crash (status %s) in case %s :: %s' % (g, rc, last, crash(se)))
        finally:
            shutil.rmtree(d, ignore_errors=True)

def crash(se):
    for l in se.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l: return l.strip()[:300]
    return se.strip()[-200:].replace('\n', ' | ')
