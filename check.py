#!/usr/bin/env python3
"""check.py <property id>: analyses /repo's current sources; exit 0 holds, 1 violated, 2 analysis broken."""
import importlib, os, sys, traceback
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import ir
import glob


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == '--setup':
        ir.build_tool()
        ir.load_many(list(ir.programs()))
        print('ready')
        return 0
    mod = None
    pid = sys.argv[1]
    for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib', 'checks', pid.lower() + '_*.py')):
        mod = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    if mod is None:
        print('no check for', pid)
        return 2
    try:
        return mod.run()
    except ir.AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN %s: internal error' % pid)
        return 2


if __name__ == '__main__':
    sys.exit(main())
