#!/usr/bin/env python3
"""check.py <property> [--replay file] [--cases n]   (run in /verif)"""
import os
import sys

ENV = dict(PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', NUMBA_DISABLE_JIT='1', TZ='UTC', LC_ALL='C.UTF-8')
PY = '/opt/venv/bin/python'


def reexec():
    env = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONSTARTUP', 'PYTHONOPTIMIZE', 'PYTHONWARNINGS'):
        env.pop(k, None)
    env.update(ENV, VERIF_REEXEC='1')
    py = PY if os.access(PY, os.X_OK) else sys.executable
    os.execve(py, [py, '-B'] + sys.argv, env)


if __name__ == '__main__':
    if os.environ.get('VERIF_REEXEC') != '1':
        reexec()
    sys.dont_write_bytecode = False
    import importlib
    import tempfile
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    from sim import engine, preload
    mod = importlib.import_module('sim.checks.' + sys.argv[1].lower())
    preload.load(getattr(mod, 'PRELOAD', ()))
    sys.dont_write_bytecode = False
    sys.exit(engine.main(mod, sys.argv[2:]))
