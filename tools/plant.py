#!/usr/bin/env python3
"""plant.py <id> [--quick] : check a seeded bug against /repo (apply, build, demo, tests, check; always undone).
plant.py --make <id> <property> <repo file> <old> <new> <needs> <breaks> [more: file old new ...]"""
import json, os, subprocess, sys, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, t=900, cwd='/repo'):
    p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, cwd=cwd, timeout=t)
    return p.returncode, p.stdout


DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 0
trap 'rm -rf "$T"' EXIT
clang++-18 -std=c++14 -w -O0 -I"$PWD/_build/include" -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -pthread $(cat "$D/libs" 2>/dev/null) || exit 3
cd "$T" && timeout 100 ./demo
'''


def make(a):
    d = os.path.join(V, 'seeded', a[0])
    os.makedirs(d, exist_ok=True)
    out = ''
    edits = {}
    triples = [a[2:5]] + [a[i:i + 3] for i in range(7, len(a), 3)]
    for f, old, new in triples:
        s = edits.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        edits[f] = s.replace(old, new)
    for f, s in edits.items():
        o = open('/repo/' + f).read()
        out += ''.join(difflib.unified_diff(o.splitlines(1), s.splitlines(1), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(out)
    if not os.path.exists(d + '/demo.sh'):
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': a[1], 'needs': a[5], 'what_it_breaks': a[6]}, open(d + '/meta.json', 'w'), indent=1)


def full(i):
    d = os.path.join(V, 'seeded', i)
    pid = json.load(open(d + '/meta.json'))['property']
    r = []
    rc, o = sh('bash /opt/vp/build.sh')
    rc0, o0 = sh('bash %s/demo.sh' % d)
    r.append('clean demo %d' % rc0)
    if rc0:
        print(o0[-1500:])
    rc, o = sh('git apply %s/patch.diff' % d)
    try:
        assert rc == 0, o
        rc, o = sh('bash /opt/vp/build.sh')
        r.append('build %d' % rc)
        if rc:
            print(o[-1500:])
        rc, o = sh('bash %s/demo.sh' % d)
        r.append('patched demo %d' % rc)
        print(o[-300:])
        if '--quick' not in sys.argv:
            rc, o = sh('bash /opt/vp/test.sh /tmp/s/out.json')
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            res = open('/tmp/s/out.json').read()
            j = json.loads(res)
            p = set(j.get('passed', []))
            r.append('tests %s' % ('ok' if all(x in p for x in st) else 'FAIL'))
        rc, o = sh('python3 %s/check.py %s quick' % (V, pid))
        r.append('check %s rc=%d' % (pid, rc))
        print(o[-900:])
    finally:
        sh('git checkout -- .')
    print(i, '; '.join(r))


if sys.argv[1] == '--make':
    make(sys.argv[2:])
else:
    for x in sys.argv[1:]:
        if not x.startswith('--'):
            full(x)
