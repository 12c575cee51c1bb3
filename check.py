#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property on the current source of /repo."""
import importlib
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dpcheck.report import AnalysisBroken, Report      # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == '--list':
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'dpcheck', 'checks')
        print(' '.join(sorted(f[:-3].upper() for f in os.listdir(d) if f[0] == 'c' and f[1:3].isdigit())))
        return 0
    rep = Report(pid)
    try:
        importlib.import_module('dpcheck.checks.' + pid.lower()).run(rep)
    except (AnalysisBroken, SyntaxError) as err:
        print('%s: no verdict: %s' % (pid, err))
        return 2
    return rep.finish()


if __name__ == '__main__':
    sys.exit(main())
