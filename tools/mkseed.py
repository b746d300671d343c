#!/usr/bin/env python3
"""mkseed.py SPEC.py : makes seeded/<id>/ from a spec (development tool). Spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), optional DEMO_SH.
Confirms in /repo: builds, stable tests pass, demo fails with / passes without; undoes the change."""
import sys, os, json, subprocess, re
spec = {}; exec(open(sys.argv[1]).read(), spec)
R = '/repo'; D = '/verif/seeded/' + spec['ID']; os.makedirs(D, exist_ok=True)
SH = '''#!/bin/bash
# cwd: /repo, after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
Q=/usr/include/x86_64-linux-gnu/qt5
g++ -std=gnu++11 -O1 -fPIC -fopenmp -w -DHAVE_OPENMP -Inbody -I. -I$Q -I$Q/QtCore -I$Q/QtGui "$D/demo.cpp" -o "$T/demo" -L_build/lib -lnbody -lQt5Gui -lQt5Core || exit 2
cd "$T" && LD_LIBRARY_PATH="$OLDPWD/_build/lib" QT_LOGGING_RULES='*=false' timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, **k)
assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
try:
    for f, o, n in spec['EDITS']:
        s = open(R + '/' + f).read(); assert s.count(o) == 1, (f, s.count(o), o); open(R + '/' + f, 'w').write(s.replace(o, n))
    d = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
    open(D + '/patch.diff', 'w').write(d)
    if 'DEMO' in spec: open(D + '/demo.cpp', 'w').write(spec['DEMO'])
    open(D + '/demo.sh', 'w').write(spec.get('DEMO_SH', SH)); os.chmod(D + '/demo.sh', 0o755)
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(D + '/meta.json', 'w'), indent=1)
    r = sh('bash /opt/vp/test.sh /tmp/seed_o.json >/tmp/seed_t.log 2>&1')
    o = json.load(open('/tmp/seed_o.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [x for x in b if x not in o['passed']]
    print(spec['ID'], 'tests missing:', len(miss), miss[:5])
    r = sh('bash %s/demo.sh' % D, cwd=R, capture_output=True, text=True); print('demo with patch: rc', r.returncode, (r.stdout + r.stderr)[-300:])
    bad = r.returncode == 0 or miss
    if '--check' in sys.argv:
        r = sh('python3-vt /verif/check.py %s' % spec['PROPERTY'], capture_output=True, text=True); print('check rc', r.returncode); print('\n'.join(l for l in r.stdout.split('\n') if 'failing' in l or 'VIOL' in l or 'refuted' in l)[:1500])
finally:
    sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh >/dev/null 2>&1')
r = sh('bash %s/demo.sh' % D, cwd=R, capture_output=True, text=True); print('demo clean: rc', r.returncode, (r.stdout + r.stderr)[-300:])
print('KEEP' if not bad and r.returncode == 0 else 'REJECT')
