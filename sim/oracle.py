"""What the user may see: comparison with undisturbed runs and with a small
model of the saving rules."""
import numpy as np

from . import config, monitors, seams
from .config import FRC, KEYS, POS

TOL = 1e-9


def same(a, b, tol=TOL):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        # empty arrays carry no rows, whatever their other axes
        return a.size == 0 and b.size == 0 and (
            a.ndim == 0 or b.ndim == 0 or a.shape[0] == b.shape[0])
    if a.size == 0:
        return True
    try:
        return bool(np.allclose(a.astype(float), b.astype(float), rtol=tol, atol=tol,
                                equal_nan=True))
    except (TypeError, ValueError):
        return False


def diff(a, b, keys=KEYS):
    """First difference between two results, or None."""
    for k in keys:
        if k not in a or k not in b:
            return 'array %s is missing' % k
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if not same(x, y):
            if x.shape != y.shape:
                return '%s has shape %s instead of %s' % (k, x.shape, y.shape)
            bad = ~np.isclose(x.astype(float), y.astype(float), rtol=TOL, atol=TOL,
                              equal_nan=True)
            row = int(np.argwhere(bad)[0][0]) if x.ndim else 0
            return '%s differs from row %d on (of %d), by up to %.3g' % (
                k, row, len(x), float(np.nanmax(np.abs(x.astype(float) - y.astype(float)))))
    return None


def rows(d, k):
    return len(d[k])


def due(c, every):
    """Frames at which a row is due."""
    if every <= 0:
        return []
    return [f for f in range(c['frames']) if f % every == 0 and f >= c['start']]


def pos_rows(c, upto=None):
    """Number of position rows after frame `upto` has been processed."""
    fr = due(c, c['every'])
    last = c['frames'] - 1 if upto is None else upto
    n = len([f for f in fr if f <= last])
    if fr and fr[-1] == c['frames'] - 1 and last >= c['frames'] - 1:
        n += 1
    return n


def frc_rows(c, upto=None):
    last = c['frames'] - 1 if upto is None else upto
    return len([f for f in due(c, c['fevery']) if f <= last])


def restart_frame(c, npos):
    """Frame whose state is the last of `npos` saved position rows."""
    fr = due(c, c['every'])
    if npos <= 0 or npos > len(fr) + 1:
        return None
    if npos == len(fr) + 1:
        return c['frames']
    return fr[npos - 1]


def backup_frames(c):
    """Frames after which a running backup must exist."""
    if not c['backup'] or c['every'] <= 0 or c['fevery'] <= 0:
        return []
    return [f for f in range(c['frames']) if f % c['temp'] == 0 and pos_rows(c, f) > 0]


def completed(rec):
    return rec['status'] == 'exit' and rec['code'] == 0


def says_complete(rec):
    return 'complete' in rec['out'].lower()


def tail(rec):
    return (rec['err'] or rec['out']).strip()[-300:]


def clean(ctx, c, label='undisturbed run', **kw):
    """Run a configuration without faults on a fresh machine.  Returns
    (record, arrays, file name) or None after reporting."""
    w = ctx.world
    w.reset(config.files_for(c))
    rec = ctx.run(config.spec_for(c, **kw), config.code(), label)
    files = w.files()
    res = config.results_in(files)
    if not completed(rec) or len(res) != 1:
        ctx.case.bad('clean-run', 'an undisturbed run ended with %s %s and %d results files: %s'
                     % (rec['status'], rec['code'], len(res), tail(rec)))
        return None
    d = monitors.load_npz(files[res[0]])
    if d is None:
        ctx.case.bad('clean-run', 'the results file of an undisturbed run is unreadable')
        return None
    return rec, d, res[0]


def best_backup(files, match=None):
    """(path, arrays) of the newest readable backup by name."""
    for p in sorted(config.backups_in(files), reverse=True):
        d = monitors.load_npz(files[p])
        if d is not None and (match is None or match(p)):
            return p, d
    return None


def prefix_of(b, ref, c):
    """Is backup b a prefix of the results ref?"""
    for k in KEYS:
        n = len(b[k])
        if n > len(ref[k]):
            return '%s has %d rows, the whole run only %d' % (k, n, len(ref[k]))
        if not same(b[k], np.asarray(ref[k])[:n]):
            return '%s is not the beginning of the undisturbed rows' % k
    return None


def counts_of(rec):
    cache = {}

    def f(cls):
        if cls not in cache:
            cache[cls] = seams.count_class(cls, rec)
        return cache[cls]
    return f
