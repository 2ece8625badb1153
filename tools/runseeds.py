#!/usr/bin/env python3
"""Run each planted bug's property check (or --all checks) against a scratch copy: tools/runseeds.py [ids...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    w = '/tmp/runseed'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
    t = time.time()
    r = subprocess.run(['python3', 'run.py', m['property']], cwd=V, env=dict(os.environ, VP_REPO=w), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, m['property'], 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), flush=True)
    if not (r.returncode == 1 and v):
        print(r.stdout[-500:], r.stderr[-500:])
    shutil.rmtree(w, ignore_errors=True)
