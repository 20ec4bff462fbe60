#!/usr/bin/env python3
"""check.py <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER, VERIF_RUNS, VERIF_WORKERS)"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('VERIF_NOEXEC'):
    os.environ['VERIF_NOEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'       # fresh processes of C01, C08 and C19 get others
    os.execv(VENV, [VENV] + sys.argv)

if __name__ == '__main__':
    try:
        try:
            from sim import boot  # noqa: F401
        except SystemExit:
            raise
        from sim import core
        if sys.argv[1] == 'setup':
            # nothing to build: pure Python. Confirm that the code and the harness load.
            for k in range(1, 24):
                importlib.import_module(f'sim.props.c{k:02d}')
            print('setup ok:', boot.PKG)
            os._exit(0)
        mod = importlib.import_module('sim.props.' + sys.argv[1].lower())
        rc = core.main(mod, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
