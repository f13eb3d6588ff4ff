"""Generators shared by the checks.  Everything returned is JSON-able."""
import copy
import math

from . import config

DTS = ['0.1', '0.05', '0.01', '0.25', '0.125', '0.2', '0.001', '1e-05', '2e-05',
       '0.0001', '5e-4', '1e-1', '.1', '0.30']
# other settings that a run may be made with; the last is not for periodic boxes
OPTIONS = [dict(use_Minfinity_only=True), dict(bead_bead_interactions=False), dict(cutoff_factor=1.5),
           dict(cutoff_factor=3), dict(rk4_generate_minfinity_for_each_stage=False),
           dict(rk4_generate_minfinity_for_each_stage=False), dict(printout=1), dict(cutoff_factor=2.5),
           dict(use_drag_Minfinity=True, use_drag_R2Binfinity=True)]
STOPS = ('kill', 'torn', 'int', 'power', 'torn_power')


def particles(rng, ns, nd, tight=False, periodic=False):
    """Non-overlapping spheres (radius 1) and dumbbells on a jittered grid."""
    cells = [(x, z) for x in range(-1, 2) for z in range(-1, 2)]
    if periodic:
        # box of side 8 centred on the origin
        cells = [(-1, -1), (1, 1), (-1, 1), (1, -1)]
        gap = 2.0
    else:
        gap = 3.2 if tight else 4.5
    rng.shuffle(cells)
    j = 0.35
    out = {}
    sp, db = [], []
    for x, z in cells[:ns]:
        sp.append([round(gap * x + rng.uniform(-j, j), 3),
                   round(rng.choice([0, 0, rng.uniform(-j, j)]), 3),
                   round(gap * z + rng.uniform(-j, j), 3)])
    for x, z in cells[ns:ns + nd]:
        v = [rng.uniform(-1, 1), rng.choice([0, rng.uniform(-.5, .5)]), rng.uniform(-1, 1)]
        n = sum(a * a for a in v) ** .5 or 1
        ln = rng.uniform(1.0, 2.6)
        db.append([round(gap * x + rng.uniform(-j, j), 3), 0.0,
                   round(gap * z + rng.uniform(-j, j), 3)]
                  + [round(ln * a / n, 3) for a in v])
    if sp:
        out['spheres'] = sp
    if db:
        out['dumbbells'] = db
    return out


def close(rng, p):
    """Moves a sphere or bead next to another sphere, where they repel each other."""
    sp, db = p.get('spheres', []), p.get('dumbbells', [])
    a = rng.uniform(0, 6.28)
    u = [math.cos(a), 0.0, math.sin(a)]
    h = rng.uniform(2.12, 2.19) / 2
    if db and (len(sp) < 2 or rng.random() < .7):
        ln = math.dist(db[0][3:], (0, 0, 0))
        db[0] = [round(x + (1.1 * h + ln / 2) * y, 4) for x, y in zip(sp[0], u)] + [round(ln * y, 4) for y in u]
    elif len(sp) > 1:
        sp[1] = [round(x + 2 * h * y, 4) for x, y in zip(sp[0], u)]
    rest = [x[:3] for x in sp[1:] + db]
    if all(math.dist(x, y) > 2.1 for x in rest for y in rest if x is not y):
        return p


def physics(rng, schemes=('euler', 'euler', 'rk4', 'ab2'), periodic=0.06, fixed=True):
    """Setup, particles, input, form and scheme of a run that works."""
    scheme = rng.choice(schemes)
    r = rng.random()
    if r < periodic:
        ns = rng.choice([1, 2, 2])
        return dict(setup=8, particles=particles(rng, ns, 0, periodic=True), input=2,
                    form='fte', scheme=scheme if scheme != 'rk4' or rng.random() < .3
                    else 'euler', periodic=True)
    if fixed and r < periodic + .08:
        return dict(setup=2, particles=None, input=rng.choice([1, 7]), form='fte',
                    scheme=scheme)
    if fixed and r < periodic + .16:
        return dict(setup=4, particles=None, input=rng.choice([1, 3, 7]), form='fte',
                    scheme=scheme)
    if fixed and rng.random() < .1:
        # two spheres, of different sizes in most of them
        return dict(setup=-rng.randint(1, 8), particles=None, form='fte', scheme=scheme,
                    input=rng.choice([1, 3, 4, 7, -rng.randint(1, 13), -rng.randint(1, 13), -rng.randint(1, 13)]))
    r = rng.random()
    if r < .42:
        ns, nd = rng.choice([1, 2, 2, 3]), 0
        inp, form = rng.choice([(1, 'fte'), (3, 'fte'), (4, 'fte'), (7, 'fte')])
    elif r < .85:
        ns, nd = rng.choice([1, 2, 2]), rng.choice([1, 1, 2])
        inp, form = rng.choice([(1, 'fte'), (3, 'fte'), (4, 'fte'), (7, 'fte'), (5, 'ufte')])
    else:
        ns, nd = 0, rng.choice([1, 2])
        inp, form = rng.choice([(3, 'fts'), (7, 'fts')])
    p = particles(rng, ns, nd, rng.random() < .3)
    if inp == 4 and ns + nd > 1 and rng.random() < .6:
        p = close(rng, copy.deepcopy(p)) or p
    return dict(setup=8, particles=p, input=inp, form=form, scheme=scheme)


def saving(rng, frames):
    """Saving intervals and start."""
    d = dict(every=rng.choice([1, 1, 1, 2, 2, 3, 4]),
             fevery=rng.choice([1, 1, 1, 2, 3, 4, 5]),
             start=rng.choice([0, 0, 0, 0, rng.randint(1, max(1, min(6, frames - 2)))]),
             temp=rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]))
    return d


def run_config(rng, frames=None, minv=True, **kw):
    ph = physics(rng, **kw)
    if frames is None:
        r = rng.random()
        if ph.get('periodic'):
            frames = rng.randint(2, 6)
        elif ph['scheme'] == 'rk4':
            frames = rng.randint(2, 10)
        else:
            frames = rng.randint(2, 14) if r < .9 else rng.randint(15, 40)
    c = config.make(frames=frames, dt=rng.choice(DTS))
    per = ph.pop('periodic', False)
    c.update(ph)
    c.update(saving(rng, frames))
    if minv and rng.random() < .3:
        c['minv'] = rng.choice([2, 3, 4])
        if rng.random() < .6:
            # restarts fall on regeneration timesteps
            c['every'] = c['minv']
    if rng.random() < .1 and not per:
        c['desc'] = rng.choice(['', 'test', 'my run', 'a-b', 'trial_2'])
    if rng.random() < .08:
        c['flat'] = True
    if rng.random() < .15:
        c['extra'] = dict(rng.choice(OPTIONS[:-1] if per else OPTIONS))
    return c


def stop(rng, kinds=STOPS, classes=None):
    """A stop at a point given by class of event and relative position; the
    position becomes a number once the number of events is known."""
    cls = rng.choice(classes or ('any', 'any', 'backup', 'backup', 'change', 'final', 'out'))
    s = dict(do=rng.choice(kinds), cls=cls, pos=round(rng.random(), 4))
    if s['do'].startswith('torn'):
        if rng.random() < .7:
            s['cls'] = 'write'
        s['frac'] = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    return s


def place(stp, counts, share=1.0):
    """Turn a relative position into a number, given the number of events of
    each class in the reference execution and the share still to come."""
    if 'nth' in stp or 'at' in stp:
        return stp
    n = counts(stp['cls'])
    if stp['cls'] in ('final',):
        share = 1.0
    k = int(stp['pos'] * max(1, n * share))
    s = {a: b for a, b in stp.items() if a != 'pos'}
    s['nth'] = k
    return s


def smaller_config(c):
    """Simpler configurations, most drastic first."""
    def alt(**kw):
        d = dict(c)
        d.update(kw)
        return d
    if c.get('frames', 0) > 2:
        for f in (2, 3, c['frames'] // 2, c['frames'] - 1):
            if 2 <= f < c['frames']:
                yield alt(frames=f)
    for k, v in (('desc', None), ('flat', False), ('minv', 1), ('start', 0), ('every', 1),
                 ('fevery', 1), ('dt', '0.1'), ('temp', 1), ('temp', 2), ('scheme', 'euler'),
                 ('extra', {})):
        if c.get(k) != v:
            yield alt(**{k: v})
    p = c.get('particles')
    if p:
        for kind in ('spheres', 'dumbbells'):
            if len(p.get(kind, ())) > (1 if kind == 'spheres' else 0):
                q = dict(p)
                q[kind] = p[kind][:-1]
                if not q[kind]:
                    q.pop(kind)
                if q:
                    yield alt(particles=q)


def smaller_list(items):
    for i in range(len(items)):
        yield items[:i] + items[i + 1:]


def smaller_stops(stops):
    yield from smaller_list(stops)
    for i, s in enumerate(stops):
        for k in ({'do': 'kill'},):
            if s['do'] != k['do']:
                t = dict(s)
                t.update(k)
                yield stops[:i] + [t] + stops[i + 1:]
        if s.get('nth', 0) > 0:
            for n in (0, s['nth'] // 2, s['nth'] - 1):
                if n < s['nth']:
                    t = dict(s, nth=n)
                    yield stops[:i] + [t] + stops[i + 1:]
