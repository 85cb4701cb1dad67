#!/usr/bin/env python3
"""check.py <property> [quick|thorough] : decide one property on /repo's current tree"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
import vt
if os.environ.get('PYTHONHASHSEED') != '0': # the same inputs for the same seed
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = vt.Check(pid, tier)
    try:
        importlib.import_module(pid.lower()).run(c)
        return c.finish()
    except vt.CheckError as e:
        vt.log(f'CHECK ERROR {pid}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2
sys.exit(main())
