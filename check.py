#!/usr/bin/env python3
"""usage: check.py <property id> ...    decide properties of /repo's current source"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main(ids):
    rc = 0
    for i in ids:
        try:
            m = importlib.import_module('checks.' + i.lower())
            r = m.run()
        except Exception as e:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s %s' % (i, str(e)[:2000]))
            r = 2
        if r == 2 or (r and not rc):
            rc = r
    return rc


if __name__ == '__main__':
    if sys.argv[1:] == ['--setup']:
        from engine import build
        print(build.exporter())
        sys.exit(0)
    sys.exit(main(sys.argv[1:]))
