"""C13: every saved state is geometrically consistent, for whole runs and restarts."""
import math

import numpy as np

from .. import config, make, monitors, oracle

PROP = 'C13'
LEVEL = 'exploration'
CASES = {'quick': 1300, 'thorough': 13000}
RULE = ('case = particles x flow x scheme x timestep x 2D setting x periodic box with spheres at its faces x '
        'length (up to 250 frames), undisturbed or stopped and repeated, or continued from a backup with other '
        'orientations; every row of every backup and results file is examined; non-trivial = some sphere turns, '
        'moves across the box or is held in the plane')


def gen(rng, i, tier):
    r = rng.random()
    scheme = rng.choice(['euler', 'euler', 'ab2', 'rk4'])
    kind = 'periodic' if r < .12 else 'row' if r < .3 else 'long' if r < .36 else 'any'
    frames = rng.randint(2, 9)
    dt = rng.choice(['0.1', '0.25', '0.5', '1.0', '2.0'])
    inp, form = rng.choice([(1, 'fte'), (7, 'fte'), (7, 'fte'), (3, 'fte'), (4, 'fte')])
    if kind == 'periodic':
        p = make.particles(rng, rng.choice([1, 1, 2, 2]), 0, periodic=True)
        # put some next to a face, so that they cross it
        for s in p['spheres']:
            if rng.random() < .7:
                s[2] = rng.choice([-3.99, -3.9, 3.95, s[2]])
            if rng.random() < .2:
                s[rng.choice([0, 1])] = rng.choice([-3.999, 3.999])
        if len(p['spheres']) == 2:
            a, b = p['spheres']
            d = [abs(x - y) for x, y in zip(a, b)]
            if sum(min(x, 8 - x) ** 2 for x in d) < 6.25:
                p['spheres'] = [a]
        inp, form = 2, 'fte'
        dt = rng.choice(['0.5', '2.0', '10.0', '30.0', '100.0'])
        frames = rng.randint(2, 5)
        scheme = rng.choice(['euler', 'ab2', 'rk4']) if frames < 4 else rng.choice(['euler', 'ab2'])
    elif kind == 'row':
        # rows along one axis make spheres turn about exactly one axis
        ax = rng.randrange(3)
        p = {'spheres': []}
        for k in range(rng.choice([2, 2, 3])):
            s = [0.0, 0.0, 0.0]
            s[ax] = round(k * rng.choice([2.5, 3, 4.5]), 3)
            p['spheres'].append(s)
        inp = rng.choice([1, 1, 7, 4])
    else:
        p = make.particles(rng, rng.choice([1, 2, 2, 3]), rng.choice([0, 0, 1]), rng.random() < .3)
        for s in p['spheres']:
            if rng.random() < .5:
                s[1] = round(rng.uniform(-1.5, 1.5), 3)
    if kind == 'long':
        frames = rng.choice([60, 120, 250])
        p = {'spheres': p['spheres'][:rng.choice([1, 1, 2])]}
        scheme = rng.choice(['euler', 'ab2'])
        dt = rng.choice(['0.05', '0.1', '0.25'])
        inp = rng.choice([1, 7, 3])
    if scheme == 'rk4':
        frames = min(frames, 5)
    c = config.make(setup=8, particles=p, input=inp, form=form, scheme=scheme, frames=frames, dt=dt,
                    flat=rng.random() < .4)
    if kind == 'any' and rng.random() < .3:
        # two spheres, of different sizes in most of them
        c.update(setup=-rng.randint(1, 8), particles=None, form='fte',
                 input=rng.choice([1, 7, 3, -rng.randint(1, 13), -rng.randint(1, 13), -rng.randint(1, 13)]))
    c.update(make.saving(rng, min(frames, 10)))
    c['start'] = 0
    if kind == 'long':
        c['temp'] = rng.choice([20, 50, 120])
    stops = []
    if rng.random() < .4:
        stops = [make.stop(rng, kinds=('kill', 'kill', 'int', 'torn')) for _ in range(rng.choice([1, 1, 2]))]
    turned = None
    if rng.random() < .25 and kind != 'long':
        turned = [rng.choice(['y', 'x', 'z', 'random', 'tilt']), rng.randrange(1 << 30)]
    return dict(config=c, kind=kind, stops=stops, turned=turned)


def orientation(how, seed, n):
    """n pairs of perpendicular unit vectors."""
    rng = np.random.default_rng(seed)
    out = []
    for _ in range(n):
        if how in 'xyz':
            k = 'xyz'.index(how)
            a = np.eye(3)[k] * rng.choice([-1, 1])
            b = np.eye(3)[(k + 1 + rng.integers(2)) % 3]
        elif how == 'tilt':
            t = 10.0 ** rng.uniform(-7, -1)
            a = np.array([math.cos(t), math.sin(t), 0])
            b = np.array([-math.sin(t), math.cos(t), 0])
        else:
            a = rng.normal(size=3)
            a /= np.linalg.norm(a)
            b = np.cross(a, rng.normal(size=3))
            b /= np.linalg.norm(b)
        out.append([a, b])
    return np.array(out).reshape(n, 2, 3)


def faults(c, d, start):
    """What is wrong with the rows of a file, or None."""
    ns = config.num_particles(c)[0]
    centres = np.asarray(d['centres'], float)
    rot = np.asarray(d['sphere_rotations'], float)
    n = len(centres)
    if rot.shape != (n, ns, 2, 3):
        return 'shape', 'the rotation vectors have shape %s for %d rows of %d spheres' % (rot.shape, n, ns)
    if not np.all(np.isfinite(rot)) or not np.all(np.isfinite(centres)):
        k = int(np.argwhere(~np.isfinite(rot).all(axis=(1, 2, 3)) | ~np.isfinite(centres).all(axis=(1, 2)))[0][0])
        return 'undefined', 'row %d contains undefined numbers' % k
    v = rot - centres[:, :ns, None, :]
    ln = np.linalg.norm(v, axis=3)
    size = np.array(config.sphere_sizes(c), float)[None, :, None]
    e = np.abs(ln / size - 1)
    if e.size and e.max() > 1e-6:
        k = np.argwhere(e > 1e-6)[0]
        return 'length', 'row %d: a rotation vector of sphere %d, taken from its centre, has length %.9g, not %g' % (
            k[0], k[1], ln[tuple(k)], size[0, k[1], 0])
    dot = np.abs((v[:, :, 0] * v[:, :, 1]).sum(axis=2)) / size[:, :, 0] ** 2
    if dot.size and dot.max() > 1e-6:
        k = np.argwhere(dot > 1e-6)[0]
        return 'angle', 'row %d: the rotation vectors of sphere %d are not perpendicular (%.3g)' % (
            k[0], k[1], dot[tuple(k)])
    if c['input'] == 2:
        far = np.abs(centres).max(axis=2)
        if far.size and far.max() > 4 + 1e-9:
            k = np.argwhere(far > 4 + 1e-9)[0]
            return 'outside', 'row %d: particle %d at %s is outside the periodic box' % (
                k[0], k[1], centres[tuple(k)].tolist())
    if c['flat']:
        dy = np.abs(centres[:, :ns, 1] - start[None, :, 1])
        if dy.size and dy.max() > 1e-9:
            k = np.argwhere(dy > 1e-9)[0]
            return 'plane', 'row %d: sphere %d left its plane by %.3g' % (k[0], k[1], dy[tuple(k)])
    return None


def run(case, ctx):
    c = case['config']
    res = ctx.case
    w = ctx.world
    code = config.code()
    start = np.zeros((2, 3)) if c['setup'] < 0 else \
        np.array(c['particles'].get('spheres', []), float).reshape(-1, 3)
    mon = [dict(kind='backups', arrays=True)]
    rows = [0]

    def look(rec, label):
        for x in rec['notes']:
            if x[0] == 'backup':
                e = faults(c, x[3], start)
                rows[0] += len(x[3]['centres'])
                if e:
                    res.bad(e[0], '%s, backup at event %d: %s' % (label, x[1], e[1]))
                    return False
        for p in config.results_in(w.files()):
            d = monitors.load_npz(w.files()[p])
            if d is None:
                res.bad('unreadable', 'the results file of %s is unreadable' % label)
                return False
            rows[0] += len(d['centres'])
            e = faults(c, d, start)
            if e:
                res.bad(e[0], '%s, results: %s' % (label, e[1]))
                return False
        return True
    ref = oracle.clean(ctx, c, monitors=mon)
    if ref is None:
        return
    rec0, good, name = ref
    if not look(rec0, 'undisturbed run'):
        return
    ctx.signature(case['kind'], c['scheme'], c['input'], c['dt'], c['flat'], repr(c['particles']))
    g = np.asarray(good['sphere_rotations'], float) - np.asarray(good['centres'], float)[:, :len(start), None]
    res.nontrivial = bool(len(g) and (np.abs(g - g[0]).max() > 1e-6 or c['flat'] or c['input'] == 2))
    if c['input'] == 2:
        z = np.diff(np.asarray(good['centres'], float), axis=0)
        res.stats['crossings of the periodic boundary'] += int((np.abs(z) > 4).sum())
    counts = oracle.counts_of(rec0)
    if case['stops']:
        w.reset(config.files_for(c))
        for j in range(len(case['stops'])):
            case['stops'][j] = make.place(case['stops'][j], counts)
            rec = ctx.run(config.spec_for(c, plan=[case['stops'][j]], monitors=mon,
                                          clock=dict(start=1709286000.0 + 1000 * j)), code, 'attempt %d' % (j + 1))
            if not look(rec, 'attempt %d' % (j + 1)):
                return
        rec = ctx.run(config.spec_for(c, monitors=mon, clock=dict(start=1709386000.0)), code, 'last attempt')
        if not oracle.completed(rec):
            res.bad('ends', 'the repeated run ended with %s %s: %s' % (
                rec['status'], rec['code'], oracle.tail(rec)))
            return
        if not look(rec, 'last attempt'):
            return
    if case['turned']:
        # a backup of the first frame in which the spheres are turned otherwise
        d = {}
        for k in config.KEYS:
            d[k] = np.asarray(good[k])[:1]
        d['sphere_rotations'] = d['centres'][:, :len(start), None, :] + orientation(
            case['turned'][0], case['turned'][1], len(start))[None] * \
            np.array(config.sphere_sizes(c), float)[None, :, None, None]
        files = config.files_for(c)
        files[name[:-4] + '_TEMP.npz'] = config.npz(d)
        w.reset(files)
        rec = ctx.run(config.spec_for(c, monitors=mon), code, 'continued with other orientations')
        if not oracle.completed(rec):
            res.bad('ends', 'the continued run ended with %s %s: %s' % (
                rec['status'], rec['code'], oracle.tail(rec)))
            return
        if not look(rec, 'continued run'):
            return
    res.stats['rows examined'] += rows[0]
    res.extra['classes'] = [case['kind'], c['scheme'], 'flat' if c['flat'] else 'free',
                            '%d stops' % len(case['stops'])]


def smaller(case):
    if case['turned']:
        yield dict(case, turned=None)
    for s in make.smaller_stops(case['stops']):
        yield dict(case, stops=s)
    for c in make.smaller_config(case['config']):
        if c['particles'].get('spheres'):
            yield dict(case, config=c)
