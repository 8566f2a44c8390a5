#!/usr/bin/env python3
"""Development tool (no check uses it): run the quick check of each planted bug's property against a patched
scratch copy of /repo.  usage: seedrun.py [-j N] [id-prefix ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J = 2
if args and args[0] == '-j':
    J = int(args[1]); args = args[2:]
ids = sorted(i for i in os.listdir(os.path.join(ROOT, 'seeded')) if not args or any(i.startswith(a) for a in args))
def one(i):
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    t = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        r = subprocess.run(['git', '-C', t + '/r', 'apply', d + '/patch.diff'])
        if r.returncode:
            return i, 'patch does not apply', ''
        r = subprocess.run(['python3', 'check.py', prop, 'quick'], cwd=ROOT, env=dict(os.environ, VERIF_REPO=t + '/r', VERIF_EVIDENCE=t + '/e'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        return i, r.returncode, r.stdout
    finally:
        shutil.rmtree(t, ignore_errors=True)
with ThreadPoolExecutor(J) as ex:
    for i, rc, out in ex.map(one, ids):
        tail = [l for l in out.splitlines() if l.startswith('  ') or 'BROKEN' in l]
        print('%-40s %s %s' % (i, {0: 'MISSED', 1: 'caught', 2: 'NO ANSWER'}.get(rc, rc), (tail[0].strip()[:230] if tail else '')), flush=True)
