#!/usr/bin/env python3
"""Planted-bug workshop: seed.py make ID... | verify ID... | catch ID... [--props C01,C02]   (scratch copies under /tmp/sd)
Specs (old text -> new text, demo program) are read from the Python file named by SEEDS (default /tmp/seeds_spec.py)."""
import sys, os, subprocess, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy(tag):
    d = '/tmp/sd/' + tag
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh('cd /repo && git archive HEAD | tar -x -C ' + d); sh('cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x' % d)
    return d
def patched(i, tag=None):
    d = copy(tag or i)
    r = sh('cd %s && git apply %s/%s/patch.diff' % (d, V, i))
    if r.returncode: raise SystemExit('patch %s: %s' % (i, r.stdout))
    return d
def make(i, s):
    d = copy('mk_' + i)
    for f, old, new in s['edits']:
        p = d + '/include/boost/circular_buffer/' + f
        t = open(p).read()
        n = s.get('count', 1)
        if t.count(old) != n: raise SystemExit('%s: %d occurrences of %r' % (i, t.count(old), old))
        open(p, 'w').write(t.replace(old, new))
    o = '%s/%s' % (V, i); os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(sh('cd %s && git diff' % d).stdout)
    open(o + '/demo.cpp', 'w').write(s['demo'])
    fl = s.get('flags', '-std=c++17 -O1 -g')
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository root; exit 0 iff the property holds in the demonstrated scenario\nset -u\nhere=$(cd "$(dirname "$0")" && pwd)\ntmp=$(mktemp -d) || exit 3\ntrap \'rm -rf "$tmp"\' EXIT\n%s %s -w -I include "$here/demo.cpp" -o "$tmp/demo" || exit 3\ntimeout %d "$tmp/demo"\n' % (s.get('cc', 'g++'), fl, s.get('timeout', 60)))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
def verify(i):
    d = patched(i, 'vf_' + i); out = []
    tests = ['base_test', 'space_optimized_test', 'soft_iterator_invalidation', 'constant_erase_test']
    def one(a):
        t, std = a
        r = sh('cd %s/test && g++ -std=c++%s -w -g -I../include %s.cpp -o ../%s_%s && timeout 60 ../%s_%s' % (d, std, t, t, std, t, std))
        return (t, std, r.returncode, r.stdout[-300:])
    with ThreadPoolExecutor(8) as p:
        for t, std, rc, o in p.map(one, [(t, s) for t in tests for s in ('03', '17', '20')]):
            if rc: out.append('TEST %s c++%s fails: %s' % (t, std, o))
    r = sh('cd /repo && bash %s/%s/demo.sh' % (V, i))
    if r.returncode: out.append('demo fails on the unchanged tree: %d %s' % (r.returncode, r.stdout[-400:]))
    r = sh('cd %s && bash %s/%s/demo.sh' % (d, V, i))
    if r.returncode == 0 or r.returncode == 3: out.append('demo does not fail with the patch: %d %s' % (r.returncode, r.stdout[-400:]))
    shutil.rmtree(d)
    print(i, 'OK' if not out else '\n  '.join(['BAD'] + out)); sys.stdout.flush()
    return not out
def catch(i, props):
    d = patched(i, 'ct_' + i)
    for p in props or [json.load(open('%s/%s/meta.json' % (V, i)))['property']]:
        r = sh('cd /verif && VP_REPO=%s python3 check.py %s quick' % (d, p))
        viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        first = [l for l in r.stdout.splitlines() if l.startswith('  ')][:1] + [l for l in r.stdout.splitlines() if l.startswith(('PROBLEM', 'UNCONFIRMED', 'NO VERDICT'))][:2]
        print('%-28s %s rc=%d %s %s' % (i, p, r.returncode, 'CAUGHT' if viol and r.returncode == 1 else 'missed', ' | '.join(x[:200] for x in first)), r.stdout.splitlines()[-1][-60:] if r.stdout else ''); sys.stdout.flush()
    shutil.rmtree(d)
a = sys.argv[1:]
cmd = a[0]; props = None
if '--props' in a: k = a.index('--props'); props = a[k + 1].split(','); del a[k:k + 2]
ids = a[1:]
if cmd == 'make':
    ns = {}; exec(open(os.environ.get('SEEDS', '/tmp/seeds_spec.py')).read(), ns)
    for i in ids or ns['SEEDS']: make(i, ns['SEEDS'][i])
else:
    ids = ids or sorted(os.listdir(V))
    for i in ids: verify(i) if cmd == 'verify' else catch(i, props)
