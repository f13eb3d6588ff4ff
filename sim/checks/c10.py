"""C10: explosion protection stops the run and keeps everything up to that point."""
import numpy as np

from .. import config, make, monitors, oracle
from ..config import FRC, KEYS, POS

PROP = 'C10'
LEVEL = 'exploration'
CASES = {'quick': 1000, 'thorough': 8000}
RULE = ('case = particles with stretching dumbbells x flow x scheme x timestep x saving intervals, undisturbed '
        'or stopped once or twice (before, at or after the explosion) and repeated; the frame of the explosion '
        'comes from the unprotected trajectory; non-trivial = a dumbbell exceeds the length in the run')


def gen(rng, i, tier):
    scheme = rng.choice(['euler', 'euler', 'euler', 'ab2', 'rk4'])
    ns, nd = rng.choice([(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (1, 3), (0, 3)])
    inp = rng.choice([7, 7, 7, 7, 3, 3, 1, 4]) if ns else rng.choice([7, 7, 3])
    p = make.particles(rng, ns, nd)
    for d in p['dumbbells']:
        # some nearly at the limit, some far below it, a few beyond it
        ln = rng.choice([rng.uniform(1, 3), rng.uniform(3, 4.9), rng.uniform(4.2, 4.99), rng.uniform(2.5, 4.5),
                         rng.uniform(1, 3), 5.3])
        n = sum(x * x for x in d[3:]) ** .5
        d[3:] = [round(x * ln / n, 3) for x in d[3:]]
    frames = rng.randint(1, 5) if scheme == 'rk4' else rng.randint(1, 14)
    dt = rng.choice(['0.1', '0.2', '0.25', '0.5', '0.3', '0.7', '1.0'])
    if inp == 3:
        dt = rng.choice(['0.5', '1.0', '2.0', '3.0', '5.0'])
    c = config.make(setup=8, particles=p, input=inp, form='fte' if ns else 'fts', scheme=scheme,
                    frames=frames, dt=dt, boom=True)
    c.update(make.saving(rng, frames))
    if not oracle.due(c, c['every']) or not oracle.due(c, c['fevery']):
        c['start'] = 0
    if rng.random() < .15:
        c['boom'] = False
    stops = []
    if scheme != 'ab2' and rng.random() < .55:
        stops = [make.stop(rng, kinds=('kill', 'torn', 'int')) for _ in range(rng.choice([1, 1, 2]))]
    return dict(config=c, stops=stops, order=rng.randrange(6))


def explosion(c, d):
    """(first frame after which a dumbbell is longer than 5, candidates): with
    rk4 the stages inside a step may be longer than the step's result."""
    ln = np.linalg.norm(np.asarray(d['deltax'], float), axis=2)     # row f = start of frame f
    top = np.nanmax(np.where(np.isnan(ln), -1, ln), axis=1)
    if np.any(np.abs(top - 5) < 1e-6):
        return 'unclear', []
    first = None
    for f in range(c['frames']):
        if top[f + 1] > 5:
            first = f
            break
    options = [first]
    if c['scheme'] == 'rk4':
        for f in range(c['frames'] if first is None else first):
            step = np.nanmax(np.linalg.norm(np.diff(np.asarray(d['deltax'][f:f + 2], float), axis=0), axis=2))
            if top[f] + 3 * step > 5:
                options.append(f)
    return first, options


def run(case, ctx):
    c = case['config']
    res = ctx.case
    w = ctx.world
    code = config.code()
    # the whole trajectory, without protection
    full = dict(c, boom=False, every=1, fevery=1, start=0)
    w.reset(config.files_for(c))
    rec = ctx.run(config.spec_for(full), code, 'unprotected run, every frame saved')
    r = config.results_in(w.files())
    if not oracle.completed(rec) or len(r) != 1:
        # such a configuration breaks down by itself
        res.stats['configurations given up'] += 1
        return
    traj = monitors.load_npz(w.files()[r[0]])
    if not all(np.all(np.isfinite(np.asarray(traj[k], float))) for k in KEYS):
        res.stats['configurations given up'] += 1
        return
    f, options = explosion(c, traj)
    if f == 'unclear':
        res.stats['configurations given up'] += 1
        return
    if not c['boom']:
        options = [None]
    ref = oracle.clean(ctx, dict(c, boom=False), 'unprotected run')
    if ref is None:
        return
    rec0, good, name = ref
    res.nontrivial = f is not None and c['boom']
    res.extra['classes'] = [c['scheme'], 'explodes' if f is not None else 'calm',
                            '%d stops' % len(case['stops'])]

    def judge(what):
        files = w.files()
        results = config.results_in(files)
        if not results:
            res.bad('results', '%s left no results file' % what)
            return False
        for p in results:
            if p.split('-', 1)[1] != name.split('-', 1)[1]:
                res.bad('results', '%s left a results file called %s' % (what, p))
                return False
            d = monitors.load_npz(files[p])
            if d is None:
                res.bad('results', '%s left an unreadable results file' % what)
                return False
            e = oracle.prefix_of(d, good, c)
            if e:
                res.bad('rows', '%s: compared with the unprotected run, %s' % (what, e))
                return False
            got = {len(d[k]) for k in POS}, {len(d[k]) for k in FRC}
            want = [({oracle.pos_rows(c, o)}, {oracle.frc_rows(c, o)}) for o in options]
            if got not in want:
                res.bad('count', '%s: a dumbbell exceeds the length in %s, so there should be %s position and '
                        'force rows; there are %s' % (
                            what, 'no frame' if f is None else 'frame %d' % (f + 1), want[0], got))
                return False
        left = config.backups_in(files)
        if left:
            res.bad('left', '%s left the backup %s' % (what, left))
            return False
        return True
    w.reset(config.files_for(c))
    rec1 = ctx.run(config.spec_for(c), code, 'protected run' if c['boom'] else 'protection off')
    if not oracle.completed(rec1):
        res.bad('ends', 'the protected run ended with %s %s: %s' % (
            rec1['status'], rec1['code'], oracle.tail(rec1)))
        return
    if not judge('the protected run'):
        return
    if not case['stops']:
        return
    counts = oracle.counts_of(rec1)
    w.reset(config.files_for(c))
    now = 1709286000.0
    for j in range(len(case['stops'])):
        case['stops'][j] = make.place(case['stops'][j], counts)
        ctx.run(config.spec_for(c, plan=[case['stops'][j]], clock=dict(start=now + 1000 * j)), code,
                'attempt %d' % (j + 1))
    rec = ctx.run(config.spec_for(c, clock=dict(start=now + 9000)), code, 'last attempt')
    if not oracle.completed(rec):
        res.bad('ends', 'the repeated run ended with %s %s: %s' % (
            rec['status'], rec['code'], oracle.tail(rec)))
        return
    judge('the stopped and repeated run')


def smaller(case):
    for s in make.smaller_stops(case['stops']):
        yield dict(case, stops=s)
    for c in make.smaller_config(case['config']):
        if c['particles'].get('dumbbells') and (c['particles'].get('spheres') or c['form'] == 'fts'):
            yield dict(case, config=c)
