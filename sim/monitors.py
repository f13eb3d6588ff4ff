"""Observers that run inside a simulated process after every file mutation.
They use the real file functions, so looking is never an event."""
import hashlib
import io
import os

from . import seams

KEYS = ('Fa', 'Fb', 'DFb', 'Sa', 'centres', 'deltax',
        'force_on_wall_due_to_dumbbells', 'sphere_rotations')


def load_npz(data):
    """Arrays of a complete archive, or None."""
    import numpy as np
    import zipfile
    if data is None:
        return None
    try:
        with np.load(io.BytesIO(data)) as z:
            d = {k: z[k] for k in z.files}
    except Exception:
        return None
    return d if all(k in d for k in KEYS) else None


def attach(rt, spec):
    kind = spec['kind']
    rt.monitors.append(globals()['_' + kind](rt, spec))
    if spec.get('mid'):
        rt.mid_write_monitor = True


def _read(p):
    try:
        with seams.ORIG['open'](p, 'rb') as f:
            return f.read()
    except OSError:
        return None


def _backups(rt, spec):
    """Note every new complete running backup that becomes visible."""
    seen = {}

    def look(kind, path):
        if not path or not path.endswith('_TEMP.npz') or kind == 'unlink':
            return
        data = _read(os.path.join(rt.root, path))
        if data is None:
            return
        h = hashlib.sha256(data).hexdigest()
        if seen.get(path) == h:
            return
        seen[path] = h
        d = load_npz(data)
        if d is not None:
            rt.notes.append(('backup', rt.n, path, d if spec.get('arrays') else
                             {'centres': d['centres']}))
    return look


def _results(rt, spec):
    """Note every state in which a results file can be seen."""
    seen = {}
    skip = set(spec.get('skip', ()))

    def look(kind, path):
        out = os.path.join(rt.root, 'output')
        for n in seams.ORIG['os']['listdir'](out):
            if not n.endswith('.npz') or n.endswith('_TEMP.npz') or n in skip:
                continue
            p = os.path.join(out, n)
            if os.path.isdir(p):
                continue
            data = _read(p)
            if data is None:
                continue
            h = hashlib.sha256(data).hexdigest()
            if seen.get(n) == h:
                continue
            seen[n] = h
            d = load_npz(data)
            rt.notes.append(('result', rt.n, 'output/' + n, d))
    return look


def _frames(rt, spec):
    """Note the number of journal entries at every event (cheap)."""
    def look(kind, path):
        rt.notes.append(('mut', rt.n, kind, path))
    return look
