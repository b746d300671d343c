"""Extraction of the verified text: /repo's current sources -> LLVM IR.

Every run recompiles the library's translation units with clang (no inlining, no
optimisation beyond SSA construction) and hands the IR to the verifier.
What the extraction drops: exceptions (-fno-exceptions: a throwing allocation or
throwing Qt call aborts), `volatile` (treated as ordinary memory), padding,
debug-only code (QT_NO_DEBUG as in the release build), CUDA sources (not part of
this build).
"""
import os, re, subprocess, shutil, tempfile, glob, concurrent.futures as cf
from . import ir

REPO = os.environ.get('NBV_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
QT = '/usr/include/x86_64-linux-gnu/qt5'
HERE = os.path.dirname(os.path.abspath(__file__))
DEFS = ['-DQT_DISABLE_DEPRECATED_BEFORE=0', '-DHAVE_OPENMP', '-DHAVE_OPENCL', '-DHAVE_OPENCL2',
        '-DNBODY_EXPORT_DLL', '-DQT_NO_DEBUG', '-DQT_GUI_LIB', '-DQT_CORE_LIB']
INCS = ['-I' + HERE + '/stubs', '-I' + REPO + '/nbody', '-I' + QT, '-I' + QT + '/QtGui', '-I' + QT + '/QtCore',
        '-I/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++']
PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify)'

class ExtractError(Exception):
    pass

def tool(n):
    return shutil.which(n + '-18') or '/usr/lib/llvm-18/bin/' + n

def sources():
    """translation units of the library: the SOURCES of nbody/nbody.pro that exist, CUDA excluded"""
    out = []
    for f in sorted(glob.glob(REPO + '/nbody/*.cpp')):
        if 'cuda' in os.path.basename(f): continue
        out.append(f)
    return out

def scratch():
    return tempfile.mkdtemp(prefix='nbv.', dir='/tmp')

def extract(only=None, omp=True, extra=(), skip=('nbody_engine_opencl.cpp', 'nbody_engine_opencl_bh.cpp'),
            extra_src=(), passes=PASSES, cl=None):
    if cl is not None: return extract_cl(**cl)
    d = scratch()
    try:
        srcs = [s for s in sources() if os.path.basename(s) not in skip]
        if only:
            srcs = [s for s in srcs if os.path.basename(s) in only]
        srcs += list(extra_src)
        def one(s):
            o = os.path.join(d, os.path.basename(s) + '.ll')
            cmd = [CLANG, '-std=gnu++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions',
                   '-fno-discard-value-names', '-gline-tables-only', '-ffp-contract=off', '-fPIC', '-w', '-S', '-emit-llvm'] + \
                  (['-fopenmp'] if omp else []) + DEFS + list(extra) + INCS + [s, '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                return s, None, r.stderr
            return s, o, ''
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, srcs))
        bad = [(s, e) for s, o, e in res if o is None]
        if bad:
            raise ExtractError('; '.join('%s: %s' % (s, e[:600]) for s, e in bad))
        a = os.path.join(d, 'all.bc')
        r = subprocess.run([tool('llvm-link')] + [o for _, o, _ in res] + ['-o', a], capture_output=True, text=True)
        if r.returncode: raise ExtractError('llvm-link: ' + r.stderr[:800])
        b = os.path.join(d, 'all.ll')
        r = subprocess.run([tool('opt'), '-S', '-passes=' + passes, a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise ExtractError('opt: ' + r.stderr[:800])
        m = ir.Module(open(b).read())
        m.src_files = [os.path.relpath(s, REPO) for s in srcs]
        names = list(m.funcs) + list(m.decls)
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        m.dem = dict(zip(names, r.stdout.split('\n')))
        m.rdem = {}
        for k, v in m.dem.items():
            m.rdem.setdefault(v, []).append(k)
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)

def extract_cl(opts=(), block=64, version=120):
    """the OpenCL program as the engine assembles it (index functions, then kernels) -> IR, for one work-item;
    address spaces are flattened, three-component vectors are split into scalars (LLVM's scalarizer)"""
    d = scratch()
    try:
        src = os.path.join(d, 'k.cl')
        files = ['nbody/nbody_space_heap_func_priv.h', 'nbody/nbody_engine_opencl.cl']
        with open(src, 'w') as o:
            for f in files: o.write(open(os.path.join(REPO, f)).read() + '\n')
        a, b = os.path.join(d, 'k.ll'), os.path.join(d, 'k2.ll')
        r = subprocess.run([CLANG.replace('clang++', 'clang'), '-x', 'cl', '-cl-std=CL%s' % ('1.2' if version < 200 else '2.0'), '-D__OPENCL_VERSION__=%d' % version,
                            '-Xclang', '-fdeclare-opencl-builtins', '-Xclang', '-finclude-default-header', '-DNBODY_DATA_BLOCK_SIZE=%d' % block, '-DNBODY_MIN_R=1e-8',
                            '-DNBODY_HEAP_ROOT_INDEX=1', '-DNB_CALL_TYPE=', '-Dindex_t=int', '-Dnbcoord_t=double', '-Dnbcoord3_t=double3'] + list(opts) +
                           ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only', '-ffp-contract=off', '-w', '-S', '-emit-llvm', src, '-o', a], capture_output=True, text=True)
        if r.returncode: raise ExtractError('kernels: ' + r.stderr[:800])
        r = subprocess.run([tool('opt'), '-S', '-scalarize-load-store', '-passes=function(sroa,scalarizer,sroa,dce,early-cse,simplifycfg,loop-simplify)', a, '-o', b], capture_output=True, text=True)
        if r.returncode: raise ExtractError('opt: ' + r.stderr[:800])
        m = ir.Module(open(b).read())
        m.src_files = files
        names = list(m.funcs) + list(m.decls)
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        m.dem = dict(zip(names, r.stdout.split('\n')))
        m.rdem = {}
        for k, v in m.dem.items(): m.rdem.setdefault(v, []).append(k)
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)

def cached_extract(**kw):
    """development only: reuse an extraction whose sources are unchanged"""
    import hashlib, pickle, sys
    sys.setrecursionlimit(200000)
    h = hashlib.sha256((repr(sorted(kw.items())) + open(HERE + '/frontend.py').read()).encode())
    for f in sorted(glob.glob(REPO + '/nbody/*') + list(kw.get('extra_src', ())) + glob.glob(HERE + '/ir.py')):
        if os.path.isfile(f): h.update(f.encode()); h.update(open(f, 'rb').read())
    p = '/tmp/nbvcache/' + h.hexdigest()[:24]
    if os.path.exists(p): return pickle.load(open(p, 'rb'))
    m = extract(**kw)
    os.makedirs('/tmp/nbvcache', exist_ok=True)
    pickle.dump(m, open(p, 'wb'))
    return m
