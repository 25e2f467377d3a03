#!/usr/bin/env python3
"""tryseed.py [--no-check] ID...: in a copy of /repo under /tmp: apply, build, run the tests and the demo;
   then apply to /repo, run the property's quick check, and undo."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
nocheck = '--no-check' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
if not ids: ids = sorted(os.listdir(V + '/seeded'))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
stable = None
b = json.load(open('/opt/vp/BASELINE.json'))
stable = set(b['stable'])
assert not sh('git -C /repo status --porcelain').stdout
for i in ids:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    out = []
    clean = sh(f'bash {d}/demo.sh', cwd='/repo')
    out.append('demo-clean=%d' % clean.returncode)
    a = sh(f'git -C /repo apply {d}/patch.diff')
    if a.returncode: print(i, 'APPLY FAILED', a.stderr); continue
    try:
        bl = sh('bash /opt/vp/build.sh')
        out.append('build=%d' % bl.returncode)
        sh('bash /opt/vp/test.sh /tmp/seed.o.json')
        got = set(json.load(open('/tmp/seed.o.json'))['passed'])
        out.append('lost=%s' % sorted(stable - got))
        dm = sh(f'bash {d}/demo.sh', cwd='/repo')
        out.append('demo-patched=%d' % dm.returncode)
        if not nocheck:
            t = time.time()
            c = sh(f'bin/check {prop}', cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('check=%d %s (%.0fs)' % (c.returncode, v[:1], time.time() - t))
    finally:
        sh('git -C /repo checkout -- .')
    ok = 'demo-clean=0' in out and 'build=0' in out and 'lost=[]' in out and 'demo-patched=0' not in out
    print(i, prop, 'VALID' if ok else 'INVALID', *out, flush=True)
    if not ok: print(clean.stdout[-300:], clean.stderr[-500:], dm.stdout[-300:], dm.stderr[-300:])
sh('bash /opt/vp/build.sh')
