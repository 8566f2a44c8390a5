#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import plans
from vg import Broken, Run, shutil

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    run = Run(prop, tier)
    try:
        plans.PLANS[prop](run)
        return run.finish()
    except Broken as e:
        print('BROKEN %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)

sys.exit(main())
