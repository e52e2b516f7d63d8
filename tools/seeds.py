#!/usr/bin/env python3
"""Run the registered check of each planted bug on a scratch copy of /repo with the bug.
usage: seeds.py [-a] [-j N] [ID...]     -a: run every check, not only the bug's own"""
import sys, os, json, shutil, subprocess, tempfile, time, argparse
import concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('-a', action='store_true'); ap.add_argument('-j', type=int, default=2)
ap.add_argument('-c', default=''); ap.add_argument('ids', nargs='*'); A = ap.parse_args()
def one(i):
    s = os.path.join(V, 'seeded', i); prop = json.load(open(s + '/meta.json'))['property']
    d = tempfile.mkdtemp(prefix='seedrun'); r = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', r, symlinks=True)
        subprocess.check_call(['git', '-C', r, 'apply', s + '/patch.diff'])
        checks = A.c.split(',') if A.c else ['C%02d' % k for k in range(1, 29)] if A.a else [prop]
        out = []
        for c in checks:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=r, VERIF_BUILD=d + '/b')
            p = subprocess.run(['python3', V + '/check.py', c], env=env, capture_output=True, text=True)
            if p.returncode or not A.a:
                out.append('%s rc=%d %ds %s' % (c, p.returncode, time.time() - t, ((p.stderr.strip().splitlines() or [''])[0] if not A.a else '')[:200]))
        return i, prop, out
    finally:
        shutil.rmtree(d)
ids = A.ids or sorted(os.listdir(os.path.join(V, 'seeded')))
with cf.ThreadPoolExecutor(A.j) as ex:
    for i, prop, out in ex.map(one, ids):
        print(i, prop, '; '.join(out), flush=True)
