"""Runs one simulated process in an interpreter of its own (other hash seed)."""
import os
import pickle
import subprocess
import sys


def run(world, spec, env):
    """As world.run, in a new interpreter with extra environment variables."""
    e = dict(os.environ, VERIF_REEXEC='1', **env)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run([sys.executable, '-B', '-c',
                        'import sys; sys.path.insert(0, %r); from sim import alone; '
                        'alone.main()' % here],
                       input=pickle.dumps((world.root, spec, world.inos, world.procs,
                                           sys.pycache_prefix)),
                       stdout=subprocess.PIPE, env=e, timeout=300)
    from . import proc
    if p.returncode != 0:
        raise proc.HarnessError('separate interpreter ended with %s' % p.returncode)
    rec = pickle.loads(p.stdout)
    world.procs += 1
    world.absorb(rec)
    return rec


def main():
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    root, spec, inos, procs, prefix = pickle.loads(sys.stdin.buffer.read())
    sys.pycache_prefix = prefix
    from . import config, preload, proc
    preload.load()
    w = proc.World.__new__(proc.World)
    w.root, w.inos, w.procs, w.journal, w.runs = root, inos, procs, [], []
    rec = w.run(spec, config.code())
    out.write(pickle.dumps(rec, protocol=4))
    out.close()
