#!/usr/bin/env python3
"""Set-up: nothing is cached between runs; parse the specifications and make sure the tools are there."""
import glob, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('g++', 'java'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
bad = 0
for f in sorted(glob.glob(os.path.join(ROOT, 'spec', '*.tla'))):
    r = subprocess.run(['java', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tla2sany.SANY', os.path.basename(f)],
                       cwd=os.path.dirname(f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    ok = r.returncode == 0 and 'rror' not in r.stdout.replace('errors: 0', '')
    print(('ok   ' if ok else 'FAIL ') + os.path.basename(f))
    bad += not ok
sys.exit(1 if bad else 0)
