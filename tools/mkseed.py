#!/usr/bin/env python3
"""mkseed.py SPEC.py ... : each SPEC defines id, prop, needs, breaks, edits=[(file, old, new)...], demo (Go main body).
Confirms in a scratch copy of /repo that the change builds, passes the stable tests, and that the
demo passes without it and fails with it; then writes /verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', CGO_ENABLED='0')
DEMO = '''#!/bin/bash
# run with cwd = the gost working tree, after the build
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$D/main.go.txt" "$T/main.go"
printf 'module demo\\n\\ngo 1.20\\n\\nrequire github.com/myyrakle/gost v0.0.0\\n\\nreplace github.com/myyrakle/gost => %s\\n' "$R" > "$T/go.mod"
cd "$T" || exit 3
go build -o "$T/demo" . || exit 3
timeout 60 "$T/demo" < /dev/null
'''
BASE = '9f649f2'
def run(cmd, **k):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(repo):
    # the stable tests, run like /opt/vp/test.sh, but in the copy
    base = json.load(open('/opt/vp/BASELINE.json'))
    s = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + repo)
    f = tempfile.mktemp(suffix='.sh'); open(f, 'w').write(s)
    out = tempfile.mktemp(suffix='.json')
    r = run(['bash', f, out])
    d = json.load(open(out)); os.unlink(f); os.unlink(out)
    return base, d, r.stdout
def passed(d):
    s = set()
    def walk(x):
        if isinstance(x, dict):
            if 'passed' in x and isinstance(x['passed'], list): s.update(map(str, x['passed']))
            for k, v in x.items():
                if v in ('pass', 'passed', 'PASS'): s.add(k)
                walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(d); return s
def one(spec):
    g = {}; exec(open(spec).read(), g)
    i = g['id']; wt = '/tmp/seedwt'
    shutil.rmtree(wt, ignore_errors=True)
    run(['cp', '-a', '/repo', wt])
    for f, old, new in g['edits']:
        p = wt + '/' + f; s = open(p).read()
        if s.count(old) != 1: print(i, 'EDIT MATCHES', s.count(old), f); return False
        open(p, 'w').write(s.replace(old, new))
    diff = run(['git', 'diff'], cwd=wt).stdout
    # removed lines must be the original repository's, not ones a fix: commit added
    for f in {e[0] for e in g['edits']}:
        d = run(['git', 'diff', '-U0', f], cwd=wt).stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n == 0: continue
            b = run(['git', 'blame', '-l', '-L', '%d,+%d' % (a, n), 'HEAD', '--', f], cwd=wt).stdout
            mine = [x for x in b.splitlines() if not x.lstrip('^').startswith(BASE)]
            if len(mine) == n: print(i, 'WARNING: hunk changes only lines of fix commits:', mine[:2])
    r = run(['go', 'build', './...'], cwd=wt)
    if r.returncode: print(i, 'BUILD', r.stdout); return False
    base, d, log = tests(wt)
    st = base.get('stable') or base.get('tests') or []
    miss = sorted(set(map(str, st)) - passed(d))
    if not st: print('baseline keys', list(base)[:5])
    if miss: print(i, 'TESTS', miss[:5]); return False
    dst = V + '/seeded/' + i
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    open(dst + '/patch.diff', 'w').write(diff)
    open(dst + '/main.go.txt', 'w').write('package main\n\n' + g['demo'].lstrip('\n'))
    open(dst + '/demo.sh', 'w').write(DEMO); os.chmod(dst + '/demo.sh', 0o755)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
    a = run(['bash', dst + '/demo.sh'], cwd='/repo'); b = run(['bash', dst + '/demo.sh'], cwd=wt)
    ok = a.returncode == 0 and b.returncode not in (0, 3)
    print(i, 'ok' if ok else 'DEMO', a.returncode, b.returncode, '' if ok else a.stdout[-600:] + '\n---\n' + b.stdout[-600:])
    if not ok: shutil.rmtree(dst)
    shutil.rmtree(wt, ignore_errors=True)
    return ok
for s in sys.argv[1:]: one(s)
