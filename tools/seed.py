#!/usr/bin/env python3
"""Makes and tries planted bugs.
   seed.py make SPEC.py...      writes seeded/<id>/ (patch.diff, demo.sh, demo.py, mqttc.py, meta.json) from a spec
   seed.py try ID... [--tests]  in a scratch copy: demo on the unchanged and on the patched tree, the property's check on the patched tree
"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = '/tmp/seedwork'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy():
    if not os.path.isdir(S + '/.git'):
        os.makedirs(S, exist_ok=True); sh('cp -a /repo/. %s/ && rm -rf %s/_build' % (S, S))
    print(sh('cd %s && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD' % S).stdout, end='')
def build(): 
    r = sh('cd %s && export CC=gcc CXX=g++; [ -f _build/flashmq/build.ninja ] || cmake -S . -B _build/flashmq -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_COMPILER=g++ -DCMAKE_POLICY_VERSION_MINIMUM=3.5; ninja -C _build/flashmq' % S)
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode == 0
def make(spec):
    ns = {}; exec(open(spec).read(), ns); d = V + '/seeded/' + ns['ID']; os.makedirs(d, exist_ok=True); copy()
    for f, old, new in ns['EDITS']:
        t = open(S + '/' + f).read(); assert t.count(old) == 1, (ns['ID'], f, t.count(old), old); open(S + '/' + f, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('cd %s && git diff' % S).stdout); sh('cd %s && git checkout -q -- .' % S)
    open(d + '/demo.py', 'w').write('from mqttc import *\n' + ns['DEMO'].lstrip('\n')); shutil.copy(V + '/tools/seedlib/mqttc.py', d + '/mqttc.py')
    open(d + '/demo.sh', 'w').write('#!/bin/sh\n# run in the repository after the build: exit 0 when the property holds\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
def trial(i, tests):
    d = V + '/seeded/' + i; meta = json.load(open(d + '/meta.json')); copy()
    if not build(): print(i, 'BASE BUILD FAILED'); return
    a = sh('sh %s/demo.sh' % d, cwd=S); ap = sh('git -C %s apply %s/patch.diff' % (S, d)); 
    if ap.returncode: print(i, 'patch:', ap.stdout); return
    if not build(): print(i, 'BUILD FAILED'); return
    b = sh('sh %s/demo.sh' % d, cwd=S); print(i, meta['property'], 'demo: base', a.returncode, 'patched', b.returncode, '' if a.returncode == 0 and b.returncode else 'BAD\n' + a.stdout[-800:] + b.stdout[-800:], flush=True)
    if tests:
        sc = open('/opt/vp/test.sh').read().replace('/repo', S); bs = open('/opt/vp/build.sh').read().replace('/repo', S); open('/tmp/seed-build.sh', 'w').write(bs); open('/tmp/seed-test.sh', 'w').write(sc.replace('/opt/vp/build.sh', '/tmp/seed-build.sh'))
        t = sh('bash /tmp/seed-test.sh /tmp/seed-out.json'); o = json.load(open('/tmp/seed-out.json')); base = json.load(open('/opt/vp/BASELINE.json')); st = base.get('stable') or base.get('passed') or base.get('tests'); print(i, 'tests missing:', [x for x in st if x not in o['passed']])
    c = sh('python3 %s/check.py %s quick' % (V, meta['property']), env=dict(os.environ, FSX_REPO=S)); print(i, 'check rc', c.returncode, 'CAUGHT' if c.returncode == 1 and 'VIOLATION' in c.stdout else 'MISSED', '\n   ' + '\n   '.join(c.stdout.strip().splitlines()[-4:])[:1200], flush=True); sh('cd %s && git checkout -q -- .' % S)
if sys.argv[1] == 'make':
    for s in sys.argv[2:]: make(s)
else:
    for i in [x for x in sys.argv[2:] if not x.startswith('--')]: trial(i, '--tests' in sys.argv)
