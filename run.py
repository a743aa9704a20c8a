#!/usr/bin/env python3
"""Entry point.

  run.py C01 [...]            decide properties (tier from VERIF_TIER)
  run.py --harness C01 name   one harness, JSON result
  run.py --replay FILE        replay a counterexample on the real code
"""
import importlib
import json
import os
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

os.environ.setdefault('HOME', '/root')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['PYTHONHASHSEED'] = '0'

if os.path.exists(VENV) and os.path.realpath(sys.prefix) != '/opt/venv' \
        and not os.environ.get('VERIF_REEXEC'):
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append(VT)


def load_checks(prop=None):
    d = os.path.join(HERE, 'checks')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f[0] == 'c' and (
                prop is None or f.startswith(prop.lower())):
            importlib.import_module('checks.' + f[:-3])


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == '--harness':
        from engine import worker
        load_checks(argv[1])
        if os.environ.get('VERIF_REPLAY_DIR') is None:
            os.environ['VERIF_REPLAY_DIR'] = tempfile.mkdtemp(
                prefix='bpverif-replay')
        real = os.dup(1)
        os.dup2(2, 1)           # the code under test prints
        r = worker.Worker(argv[1], argv[2], tier(), seed()).run()
        sys.stdout.flush()
        os.dup2(real, 1)
        sys.stdout = os.fdopen(os.dup(real), 'w')
        print(json.dumps(r))
        sys.stdout.flush()
        return 0
    if argv[0] == '--replay':
        from engine import driver
        return driver.replay(argv[1], '--json' in argv)
    if argv[0] == '--list':
        from engine import harness
        load_checks()
        for p in sorted(harness.HARNESSES):
            print(p, ' '.join(harness.HARNESSES[p]))
        return 0
    from engine import driver
    rc = 0
    for p in argv:
        rc = max(rc, driver.check(p, tier(), seed()))
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
