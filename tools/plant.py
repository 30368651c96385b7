#!/usr/bin/env python3
"""Plants bugs: plant.py add SPEC.py [ids] | verify [ids].   A spec file defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Applies each in /repo, builds, runs the stable tests and the demonstration, runs the property's check, reverts /repo.  Not used by any check."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is not.  Works in a scratch directory of its own.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -g -w %(flags)s -DHAVE_CONFIG_H -I/repo/_build/src -I/repo/src "$d/demo.cpp" %(srcs)s -o "$t/demo" %(libs)s >"$t/log" 2>&1 || { cat "$t/log"; exit 3; }
cd "$t" && ASAN_OPTIONS=detect_leaks=%(leaks)d timeout 120 ./demo
'''
def restore(): sh('git -C /repo checkout -- .'); assert not sh('git -C /repo status --short').stdout.strip()
def stable(): b = json.load(open('/opt/vp/BASELINE.json')); return set(b.get('stable') or b.get('passed'))
def verify(i):
    d = V + '/seeded/' + i; m = json.load(open(d + '/meta.json')); restore(); out = {}
    sh('bash /opt/vp/build.sh'); out['demo_clean'] = sh('bash %s/demo.sh' % d, cwd=R).returncode
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode: print(i, 'DOES NOT APPLY', r.stdout); return
    try:
        r = sh('bash /opt/vp/test.sh /tmp/plant_res.json'); p = set(json.load(open('/tmp/plant_res.json'))['passed']); out['tests_lost'] = sorted(stable() - p)
        if out['tests_lost'] and not p: print(r.stdout[-1500:])
        q = sh('bash %s/demo.sh' % d, cwd=R); out['demo_bug'] = q.returncode
        c = sh('VERIF_TIER=quick timeout 900 python3 vf.py check ' + m['property'], cwd=V); out['check'] = c.returncode; out['caught'] = c.returncode == 1 and 'VIOLATION property=%s' % m['property'] in c.stdout
    finally: restore()
    ok = out['demo_clean'] == 0 and not out['tests_lost'] and out['demo_bug'] not in (0, 3)
    print('%-10s %s %s %s%s' % (i, m['property'], 'VALID' if ok else 'INVALID ' + str(out), 'caught' if out['caught'] else 'MISSED rc=%s' % out['check'], '' if out['demo_bug'] in (1, 0) else ' (demo rc %s)' % out['demo_bug']), flush=True)
    if not out['caught']: print('   ', '\n    '.join(c.stdout.splitlines()[-6:])[:1500])
def add(spec, ids):
    g = {}; exec(open(spec).read(), g)
    for s in g['SEEDS']:
        if ids and s['id'] not in ids: continue
        restore(); d = V + '/seeded/' + s['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); bad = False
        for f, old, new in s['edits']:
            t = open(R + '/src/' + f).read()
            if t.count(old) != 1: print(s['id'], 'edit matches %d times: %s' % (t.count(old), old[:60])); bad = True; break
            open(R + '/src/' + f, 'w').write(t.replace(old, new))
        if bad: restore(); shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout); restore()
        open(d + '/demo.cpp', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % dict(flags=s.get('flags', '-fsanitize=address'), srcs=s.get('srcs', '/repo/src/String.cpp /repo/src/Stream.cpp /repo/src/AtomicFile.cpp /repo/src/base64.cpp /repo/src/Cstrings.cpp'), libs=s.get('libs', ''), leaks=1 if s.get('leaks') else 0))
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        verify(s['id'])
if sys.argv[1] == 'add': add(sys.argv[2], sys.argv[3:])
else:
    for i in sys.argv[2:] or sorted(os.listdir(V + '/seeded')): verify(i)
