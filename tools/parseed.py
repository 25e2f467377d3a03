#!/usr/bin/env python3
"""parseed.py [-j N] [ID...]: only the checks: applies each planted bug to a copy of /repo under /tmp and runs the property's check on it.
   An ID may be written ID=Cnn to run another property's check."""
import json, os, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; n = 2
if a and a[0] == '-j': n = int(a[1]); a = a[2:]
ids = a or sorted(os.listdir(V + '/seeded'))
def one(i):
    i, _, p = i.partition('=')
    d = f'{V}/seeded/{i}'
    p = p or json.load(open(d + '/meta.json'))['property']
    W = tempfile.mkdtemp(prefix='sr-')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', W + '/r'], check=True)
        ap = subprocess.run(['git', '-C', W + '/r', 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if ap.returncode: print(i, p, 'APPLY', ap.stderr, flush=True); return
        t = time.time()
        c = subprocess.run([V + '/bin/check', p], capture_output=True, text=True, env=dict(os.environ, SYM_REPO=W + '/r', SYM_EVID=W))
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, p, 'check=%d' % c.returncode, v[:1], '%.0fs' % (time.time() - t), '' if c.returncode == 1 else c.stdout[-400:], flush=True)
    finally: shutil.rmtree(W)
with ThreadPoolExecutor(n) as ex: list(ex.map(one, ids))
