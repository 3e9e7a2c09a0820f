#!/usr/bin/env python3
"""python3 run.py <PROPERTY> [...]: decides one property (or several) on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import driver, checks, build

def one(pid):
    c = driver.Check(pid)
    try:
        checks.CHECKS[pid](c)
    except build.BuildError as e:
        print('ERROR build of the tree failed:', str(e)[-3000:]); c.errors.append('build: ' + str(e)[-800:])
    except Exception:
        traceback.print_exc(); c.errors.append(traceback.format_exc()[-800:])
    return c.finish()

if __name__ == '__main__':
    args = sys.argv[1:]
    if args[:1] == ['--thorough']:
        os.environ['VERIF_TIER'] = 'thorough'; args = args[1:]
    if args == ['--prepare']:
        sys.exit(checks.prepare())
    rcs = [one(a) for a in (args if args != ['all'] else sorted(checks.CHECKS))]
    sys.exit(1 if 1 in rcs else max(rcs))
