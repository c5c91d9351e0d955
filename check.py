#!/usr/bin/env python3
"""check.py Pnn -- decides one property from the current source of the repository (static analysis)."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)
import report
from build import Broken


def main(pid):
    R = report.Report(pid)
    try:
        importlib.import_module(pid.lower()).check(R)
    except Broken as e:
        R.broken(str(e))
    except Exception:
        R.broken('internal error: ' + traceback.format_exc())
    return R.finish()


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'       # same order of work on every run
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main(sys.argv[1]))
