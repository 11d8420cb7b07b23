#!/usr/bin/env python3
"""Runs the check of a planted change's property on a scratch copy with the change applied: tryseed.py [ID...]"""
import json, os, subprocess, sys, time
BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/mkseed'
if not os.path.isdir(SCRATCH):
    os.makedirs(SCRATCH)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base' % SCRATCH, shell=True, cwd=SCRATCH, check=True)
for sid in sys.argv[1:] or sorted(os.listdir(BASE + '/seeded')):
    d = BASE + '/seeded/' + sid
    pid = json.load(open(d + '/meta.json'))['property']
    subprocess.run('git checkout -q -- . && git apply %s/patch.diff' % d, shell=True, cwd=SCRATCH, check=True)
    t = time.time()
    r = subprocess.run([sys.executable, 'check.py', pid], cwd=BASE, env=dict(os.environ, VERIF_REPO=SCRATCH), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "VIOLATED" in l]
    print(sid, pid, 'caught' if r.returncode == 1 and any(l.startswith('VIOLATION property=' + pid) for l in v) else 'MISSED rc %d' % r.returncode, '%.0f s' % (time.time() - t), *v[:2], sep=' | ', flush=True)
    subprocess.run('git checkout -q -- .', shell=True, cwd=SCRATCH, check=True)
