"""C01: a run interrupted anywhere and repeated gives the uninterrupted results."""
import random

import numpy as np

from .. import config, make, monitors, oracle
from ..config import FRC, KEYS, POS

PROP = 'C01'
LEVEL = 'exploration'
CASES = {'quick': 800, 'thorough': 6000}
RULE = ('case = configuration x 1-4 stops (kill, Ctrl-C, power loss, torn write) placed by '
        'event class and position; non-trivial = at least one stop fired and the command '
        'was repeated to completion')


def gen(rng, i, tier):
    long = i % 60 == 17
    if long:
        c = make.run_config(rng, frames=rng.choice([121, 123, 126, 130]), minv=False,
                           schemes=('euler',), periodic=0, fixed=False)
        p = c['particles']
        c.update(temp=120, every=rng.choice([1, 1, 5]), start=rng.choice([0, 0, 3]), desc=None)
        if len(p.get('spheres', [])) > 1:
            p['spheres'] = p['spheres'][:1]
        if len(p.get('dumbbells', [])) > 1:
            p['dumbbells'] = p['dumbbells'][:1]
    else:
        c = make.run_config(rng)
    n = rng.choice([1, 1, 1, 2, 2, 3, 4])
    stops = [make.stop(rng) for _ in range(n)]
    return dict(config=c, stops=stops, seed=rng.randrange(1 << 30),
                gap=rng.choice([0, 1, 60, 3600, 90000, 40000000]))


def run(case, ctx):
    c = case['config']
    res = ctx.case
    ref = oracle.clean(ctx, c)
    if ref is None:
        return
    rec0, good, name = ref
    counts = oracle.counts_of(rec0)
    exact_scheme = c['scheme'] != 'ab2'
    w = ctx.world
    w.reset(config.files_for(c))
    rng = random.Random(case['seed'])
    now = 1709286000.0
    restarts = []            # backups a later process started from
    files = w.files()
    placed = []
    code = config.code()
    plans = list(case['stops']) + [None]
    done = False
    for k, s in enumerate(plans):
        b = oracle.best_backup(files)
        share = 1.0
        if b is not None:
            f = oracle.restart_frame(c, len(b[1]['centres']))
            share = 1.0 - (f or 0) / max(1.0, c['frames'])
            restarts.append(b[1])
        plan = []
        if s is not None:
            s = make.place(s, counts, share)
            placed.append(s)
            plan = [s]
        rec = ctx.run(config.spec_for(c, plan=plan, clock={'start': now}), code,
                      'attempt %d' % (k + 1))
        now += case['gap'] + (rec['clock'] or {}).get('mono', 0)
        if rec['status'] == 'power':
            w.power_cut(lambda what, opts: rng.choice(opts))
        files = w.files()
        if rec['fired']:
            res.nontrivial = True
        elif not oracle.completed(rec):
            res.bad('restart-fails', 'the repeated command ended with %s %s: %s' % (
                rec['status'], rec['code'], oracle.tail(rec)))
            break
        if oracle.completed(rec):
            done = True
            break
    case['stops'] = placed
    restarts_exact = exact_scheme and all(
        _regenerates(c, b) for b in restarts)
    # every backup left behind is the beginning of the undisturbed rows
    if not done:
        if not res.viol:
            res.bad('never-completes', 'the command does not complete when repeated')
        return
    results = config.results_in(files)
    if not results:
        res.bad('no-results', 'the repeated command completed but left no results file')
        return
    for p in results:
        d = monitors.load_npz(files[p])
        if d is None:
            res.bad('unreadable', 'results file %s is unreadable' % p)
            continue
        if restarts_exact or not restarts:
            e = oracle.diff(d, good)
            if e:
                res.bad('rows-differ', 'after %s the results differ from an uninterrupted run: %s'
                        % (', '.join(res.trace[1:]), e))
        else:
            for key in KEYS:
                if len(d[key]) != len(good[key]):
                    res.bad('row-count', '%s has %d rows, an uninterrupted run has %d' % (
                        key, len(d[key]), len(good[key])))
            if not res.viol:
                inexact(case, ctx, c, d, restarts, good)
    res.extra['classes'] = (c['scheme'], 'restarts-%d' % len(restarts),
                            'exact' if restarts_exact else 'model')


def _regenerates(c, b):
    if c['minv'] == 1:
        return True
    f = oracle.restart_frame(c, len(b['centres']))
    return f is not None and (f % c['minv'] == 0 or f >= c['frames'])


def kept(b, c):
    """Rows of a backup that a continued run must keep."""
    n = len(b['centres'])
    f = oracle.restart_frame(c, n)
    r = {k: n for k in POS}
    # the forces of the restart frame itself may be computed again
    m = len([x for x in oracle.due(c, c['fevery']) if f is None or x < f])
    r.update({k: min(m, len(b[k])) for k in FRC})
    return r


def turned(rot, centres, g, row):
    """The rotation vectors of the restart row after the rotations that run g made
    up to the given row (its own began along x and z)."""
    out = np.empty_like(np.asarray(rot, float))
    for i in range(len(centres)):
        x, z = g['sphere_rotations'][row][i] - g['centres'][row][i]
        r = np.array([x, np.cross(z, x), z]).T
        out[i] = (rot[i] - centres[i]) @ r.T + g['centres'][row][i]
    return out


def inexact(case, ctx, c, d, restarts, good):
    res = ctx.case
    chain = restarts + [d]
    for a, b in zip(chain, chain[1:]):
        if len(b['centres']) < len(a['centres']):
            continue          # an earlier backup took over after a power loss
        for k, n in kept(a, c).items():
            if not oracle.same(np.asarray(b[k])[:n], np.asarray(a[k])[:n]):
                res.bad('kept-rows', 'rows of %s saved before the restart changed' % k)
    if c['scheme'] != 'ab2' or res.viol:
        return
    last = restarts[-1]
    n = len(last['centres'])
    f = oracle.restart_frame(c, n)
    if f is None or f >= c['frames'] or c['minv'] != 1:
        return
    left = c['frames'] - f
    if c['input'] != 3 and set(config.sphere_sizes(c)) <= {1}:
        # steady input: a fresh run from the restart row
        ns, nd = config.num_particles(c)
        cen, dx = last['centres'][-1], last['deltax'][-1]
        rot = np.asarray(last['sphere_rotations'])[-1:]
        fresh = dict(c, setup=8, frames=left, start=0, every=1, fevery=1, desc=None,
                     particles={})
        w = ctx.world
        arrays = dict(Fa=np.zeros((1, ns, 3)), Fb=np.zeros((1, nd, 3)),
                      DFb=np.zeros((1, nd, 3)), Sa=np.zeros((1, ns, 3, 3)),
                      centres=cen[None], deltax=dx[None],
                      force_on_wall_due_to_dumbbells=np.zeros(1), sphere_rotations=rot)
        w.reset({'output/FILENAME.npz': config.npz(arrays)})
        rec = ctx.run(config.spec_for(fresh), config.code(), 'fresh run from the restart row')
        files = w.files()
        out = config.results_in(files)
        if not oracle.completed(rec) or len(out) != 1:
            res.bad('clean-run', 'a run from the restart row fails: %s' % oracle.tail(rec))
            return
        g = monitors.load_npz(files[out[0]])
        # rows of d after the restart row are at frames f + k
        frames = oracle.due(c, c['every'])
        states = [x for x in frames if x >= f]
        if frames and frames[-1] == c['frames'] - 1:
            states.append(c['frames'])
        for j, x in enumerate(states):
            want = {k: g[k][x - f] for k in ('centres', 'deltax')}
            if ns:
                want['sphere_rotations'] = turned(rot[0], cen[:ns], g, x - f)
            for k, v in want.items():
                if not oracle.same(d[k][n - 1 + j], v, 1e-8):
                    res.bad('ab2-restart', '%s of frame %d is not what AB2 gives when started '
                            'afresh from frame %d' % (k, x, f))
                    return
        for j, x in enumerate(oracle.due(c, c['fevery'])):
            for k in FRC:
                if x >= f and not oracle.same(d[k][j], g[k][x - f], 1e-8):
                    res.bad('ab2-restart', '%s of frame %d is not what AB2 gives when started '
                            'afresh from frame %d' % (k, x, f))
                    return
    elif c['every'] == 1 and len(d['centres']) > n:
        # unsteady input: the first step from the restart row is an Euler step
        e = dict(c, scheme='euler')
        w = ctx.world
        fs = dict(config.files_for(c))
        fs['output/%s-s%d-i%d-%dfr-t%s-M%d-x_TEMP.npz' % (
            '2403010940', c['setup'], c['input'], c['frames'],
            str(float(c['dt'])).replace('.', 'p'), c['minv'])] = config.npz(last)
        w.reset(fs)
        rec = ctx.run(config.spec_for(e), config.code(), 'Euler run from the same backup')
        files = w.files()
        out = config.results_in(files)
        if oracle.completed(rec) and out:
            g = monitors.load_npz(files[out[0]])
            if g is not None and len(g['centres']) > n:
                for k in POS:
                    if not oracle.same(d[k][n], g[k][n]):
                        res.bad('ab2-restart', 'the first AB2 step after the restart is not '
                                'a single (Euler) step from the restart row (%s)' % k)


def smaller(case):
    for s in make.smaller_stops(case['stops']):
        if s:
            yield dict(case, stops=s)
    for c in make.smaller_config(case['config']):
        yield dict(case, config=c)
