"""One run outside the simulation: an ordinary interpreter on the real clock,
disk and host, with Numba as the program itself switches it."""
import json
import os
import shutil
import subprocess
import sys

import numpy as np

from . import config, proc

DRIVER = '''
import json, os, sys, runpy
spec = json.load(sys.stdin)
sys.stdin = open(os.devnull)
sys.path.insert(0, os.path.dirname(spec['script']))
sys.argv = [spec['script']] + spec['argv']
import numpy
import settings
for k, v in spec['settings'].items():
    setattr(settings, k, numpy.array(v) if k.startswith('viewbox') else v)
runpy.run_path(spec['script'], run_name='__main__')
'''


def run(root, c, timeout=200):
    """(exit status or None if it took too long, files, last words)"""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, 'output'))
    for p, b in config.files_for(c).items():
        with open(os.path.join(root, p), 'wb') as f:
            f.write(b)
    spec = config.spec_for(c)
    st = {k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in spec['settings'].items()}
    env = {k: v for k, v in os.environ.items() if not k.startswith('NUMBA_')}
    env.update(PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=os.path.join(root, 'cache'),
               TMPDIR=root, HOME=root, MPLCONFIGDIR=root)
    try:
        p = subprocess.run([sys.executable, '-B', '-c', DRIVER], cwd=root, env=env,
                           input=json.dumps(dict(script=spec['script'], settings=st,
                                                 argv=[str(a) for a in spec['argv']])),
                           capture_output=True, text=True, timeout=timeout)
        status, out = p.returncode, (p.stderr or p.stdout)[-600:]
    except subprocess.TimeoutExpired:
        return None, {}, ''
    files = {}
    for n in os.listdir(os.path.join(root, 'output')):
        with open(os.path.join(root, 'output', n), 'rb') as f:
            files['output/' + n] = f.read()
    shutil.rmtree(root, ignore_errors=True)
    return status, files, out
