#!/usr/bin/env python3
"""check.py <property id>... [quick|thorough] : decide properties on the current /repo tree"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import report
from facts import Broken


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    ids = []
    for a in args:
        if a in ('quick', 'thorough'):
            tier = a
        else:
            ids.append(a)
    if ids == ['all']:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'rules')) if f.startswith('c') and f[1:3].isdigit())
    seed = int(os.environ.get('VERIF_SEED', '1'))
    worst = 0
    progs = {}
    for pid in ids:
        c = report.Check(pid, tier, seed)
        c._progs = progs
        try:
            m = importlib.import_module(pid.lower())
            m.run(c)
            rc = c.finish()
        except Broken as e:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            rc = 3
        except Exception:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s internal error' % pid)
            rc = 3
        worst = max(worst, rc)
    sys.exit(worst)


main()
