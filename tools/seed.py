#!/usr/bin/env python3
"""Makes and validates planted bugs from the definitions in tools/seeds/*.py.
usage: seed.py [-n] [NAMEPREFIX...]   (-n: only write, do not validate)
A definition: S.append(dict(id, prop, edits=[(file, old, new)], pkg, test, needs, breaks))
where test is Go source of an in-package test, run by demo.sh through an overlay."""
import sys, os, subprocess, json, glob, shutil, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
for f in sorted(glob.glob(here + '/tools/seeds/*.py')):
    exec(open(f).read())
args = sys.argv[1:]
nov = '-n' in args
args = [a for a in args if a != '-n']
base = '4077baf'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def work(s):
    d = os.path.join(here, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedw/' + s['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs('/tmp/seedw', exist_ok=True)
    sh('cp -a /repo ' + w, '/')
    try:
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            src = open(p).read()
            if src.count(old) != 1: return s['id'], 'edit does not apply (%d matches) in %s: %r' % (src.count(old), f, old[:60])
            open(p, 'w').write(src.replace(old, new))
        # lines of comment, which shift the test binary's hash (see tools/parity.sh)
        if s.get('pad'):
            f, old, new = s['edits'][0]
            p = os.path.join(w, f)
            src = open(p).read()
            ind = new[:len(new) - len(new.lstrip('\t'))]
            at = src.index(new)
            assert at == 0 or src[at-1] == '\n'
            open(p, 'w').write(src[:at] + ''.join(ind + '// ' + 'Note. ' * (i + 1) + '\n' for i in range(s['pad'])).replace(' \n', '\n') + src[at:])
        r = sh('gofmt -l ' + ' '.join(set(e[0] for e in s['edits'])), w)
        if r.returncode: return s['id'], 'gofmt: ' + r.stdout + r.stderr
        diff = sh('git diff', w).stdout
        for f in set(e[0] for e in s['edits']):
            bl = set(sh('git show %s:%s' % (base, f), w).stdout.splitlines())
            for l in sh('git diff -U0 -- ' + f, w).stdout.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:] not in bl:
                    return s['id'], 'changes a line that is not original: ' + l
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo_test.go', 'w').write(s['test'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        extra = s.get('flags', '')
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 if the property held on the scenario in demo_test.go
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$repo/%s/zz_planted_demo_test.go": "$here/demo_test.go"}}
EOF
timeout 250 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestPlantedDemo$' %s ./%s
''' % (s['pkg'], extra, s['pkg']))
        os.chmod(d + '/demo.sh', 0o755)
        if nov: return s['id'], 'written'
        dd = '/tmp/seedw/' + s['id'] + '.demo'
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd)
        r2 = sh(dd + '/demo.sh', w)
        if r2.returncode == 0: return s['id'], 'demo passes with the bug'
        if 'build failed' in r2.stdout + r2.stderr or 'setup failed' in r2.stdout + r2.stderr: return s['id'], 'demo does not build: ' + r2.stdout[-900:] + r2.stderr[-900:]
        r = sh('. /opt/vp/env.sh; go build ./... && go test -json -vet=off -count=1 -timeout 3m ./... > /tmp/seedw/%s.out' % s['id'], w)
        fails = set()
        for l in open('/tmp/seedw/%s.out' % s['id']):
            try: j = json.loads(l)
            except Exception: continue
            if j.get('Action') == 'fail': fails.add(j.get('Package', '') + ' ' + j.get('Test', ''))
        bad = [f for f in fails if f.replace(' ', '/') in stable]
        if bad or (r.returncode and not fails): return s['id'], 'tests fail: %s %s' % (bad[:5], r.stderr[-300:])
        sh('git checkout -- .', w)
        r1 = sh(dd + '/demo.sh', w)
        if r1.returncode != 0: return s['id'], 'demo fails without the bug: ' + (r1.stdout + r1.stderr)[-1500:]
        return s['id'], 'ok'
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + '.demo', ignore_errors=True)
todo = [s for s in S if not args or any(s['id'].startswith(a) for a in args)]
with cf.ThreadPoolExecutor(2) as ex:
    for i, r in ex.map(work, todo):
        print(i, r, flush=True)
