#!/usr/bin/env python3
"""Developer tool: apply small edits to scratch copies of /repo and see what the
analyser says. Usage: run.py FILE.py [NAME...]. FILE.py defines M = [(name, prop, kind,
[(file, old, new), ...]), ...], kind 'bug' or 'ok'."""
import sys, os, subprocess, tempfile, shutil, concurrent.futures as cf, importlib.util
TOOL = os.environ.get('GC', '/tmp/gc')
def load(f):
    s = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.M
def one(m):
    name, prop, kind, edits = m
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    r = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) < 1: return name, prop, kind, 'NOMATCH', '%s: %r' % (f, old)
            open(p, 'w').write(s.replace(old, new, 1))
        b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd %s && go build ./... ' % r], capture_output=True, text=True)
        if b.returncode: return name, prop, kind, 'NOBUILD', b.stderr[-800:]
        props = prop.split(',')
        o = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; %s -repo %s -evidence %s %s' % (TOOL, r, d, ' '.join(props))], capture_output=True, text=True, timeout=1200)
        return name, prop, kind, ('ALARM' if o.returncode else 'quiet'), o.stdout
    except Exception as e:
        return name, prop, kind, 'ERR', repr(e)
    finally:
        shutil.rmtree(d)
ms = load(sys.argv[1]); sel = sys.argv[2:]
if sel: ms = [m for m in ms if any(m[0].startswith(s) or m[1] == s for s in sel)]
bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for name, prop, kind, res, out in ex.map(one, ms):
        want = 'ALARM' if kind == 'bug' else 'quiet'
        lines = [l for l in out.splitlines() if l.startswith('[')]
        print(('ok  ' if res == want else 'BAD ') + '%-28s %-4s %-4s %s %s' % (name, prop, kind, res, lines[0][:170] if lines else ''))
        if res != want:
            bad += 1
            print('\n'.join('      ' + l for l in out.splitlines()[:30 if sel else 14]))
print(len(ms), 'run,', bad, 'unexpected')
