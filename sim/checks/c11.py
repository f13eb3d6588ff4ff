"""C11: random placement gives a valid configuration for every random stream."""
import math
import random

import numpy as np

from .. import config, make, monitors, oracle, proc

PROP = 'C11'
LEVEL = 'exploration'
CASES = {'quick': 2500, 'thorough': 25000}
RULE = ('case = what to place (spheres, dumbbells, dumbbells in a periodic box, spheres and then dumbbells) x box '
        'x sizes x particles already there x random stream (long constant, cyclic, repeating and near-repeating '
        'stretches before a fair one); every 121st case stops and repeats a whole run that starts from random '
        'positions, under another stream; non-trivial = at least one proposal had to be rejected')
NOTE = 'Every 121st case is a whole run of setup 5 (41 spheres).'

EDGE = [0.0, 1 - 2.0 ** -53, 0.5, 0.25, 1e-12, 0.75]
ANGLES = [0.0, math.pi / 2, math.pi, math.pi / 4, 3 * math.pi / 2, 1.0]


def stream(rng):
    segs = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
        m = rng.choice(['const', 'cycle', 'echo', 'echo', 'echo', 'last', 'fair'])
        s = dict(mode=m, n=rng.choice([3, 6, 15, 30, 60, 200, 1000, 3000]))
        if m == 'const':
            s['v'] = rng.choice(EDGE)
        if m == 'cycle':
            s['vs'] = [rng.choice(EDGE + [round(rng.random(), 3)]) for _ in range(rng.choice([2, 3, 5, 6]))]
        if m in ('echo', 'last'):
            s['eps'] = rng.choice([0.0, 1e-9, 1e-3, .02, .1])
            if rng.random() < .5:
                s['first'] = rng.choice([1, 2, 4])
        segs.append(s)
    if rng.random() < .5:
        # something to repeat
        segs.insert(0, dict(mode='fair', n=rng.choice([3, 5, 6, 10, 15])))
    return segs


def sizes(rng, n, small):
    if rng.random() < .5:
        return [small] * n
    return [round(small * rng.uniform(.5, 2), 4) for _ in range(n)]


AXES = [(2, 1, 0.0, 0.0), (2, -1, .5, 0.0), (0, 1, .25, 0.0), (0, -1, .75, 0.0)]


def across(rng, case):
    """Makes the stream first propose a dumbbell that reaches through a face of the box to where another particle is."""
    low, ext = case['low'], [a - b for a, b in zip(case['high'], case['low'])]
    j, sign, theta, phi = rng.choice(AXES)
    dx = case['dx']
    first = [rng.uniform(.3, .7) for _ in range(3)]            # bead 1 in units of the box
    inside = rng.uniform(-.2, .9) * dx / ext[j] if dx < ext[j] else .5
    first[j] = (1 - inside if sign > 0 else inside) % 1
    second = list(first)                                       # bead 2, brought back into the box
    second[j] = (second[j] + sign * dx / ext[j]) % 1
    near = list(second if rng.random() < .7 else first)
    off = rng.choice([0, .5, .9]) * case['dumbbells'][0] * rng.choice([-1, 1])
    near[j] = near[j] + off / ext[j]
    if rng.random() < .7:
        near[j] %= 1
    elif not 0 <= near[j] < 1:
        near[j] -= 2 * off / ext[j]
        near[j] %= 1
    draws = first + [theta, phi]
    if case['old'] and rng.random() < .6:
        q = [round(low[k] + ext[k] * near[k], 4) for k in range(3)]
        rest = [x for x in range(1, len(case['old']))
                if math.dist(q, case['there'][x]) >= case['old'][0] + case['old'][x]]
        case['old'] = [case['old'][x] for x in [0] + rest]
        case['there'] = [q] + [case['there'][x] for x in rest]
    else:
        case['old'], case['there'] = [], []
        case['dumbbells'] = (case['dumbbells'] * 2)[:max(2, len(case['dumbbells']))]
        # the first dumbbell lies along the other axis
        draws = near + ([.25, 0.0] if j == 2 else [0.0, 0.0]) + draws
    case['theta'] = case['phi'] = 'r'
    case['stream'] = [dict(mode='cycle', vs=[min(x, 1 - 2.0 ** -53) for x in draws], n=len(draws))] + case['stream']
    return case


def gen(rng, i, tier):
    if i % 121 == 11:
        return dict(kind='run', a=rng.randrange(1 << 30), b=rng.randrange(1 << 30), input=rng.choice([1, 7]),
                    stop=dict(do=rng.choice(['kill', 'int']), cls='backup', pos=rng.choice([.6, .75, .9, .3])))
    kind = rng.choice(['spheres', 'spheres', 'dumbbells', 'dumbbells', 'periodic', 'periodic', 'both'])
    flat = rng.random() < .5
    r = rng.choice([1.0, .5, .1, .03])
    n = rng.choice([1, 2, 3, 4, 6, 8])
    dx = round(rng.choice([2.3 * r * 2, 6 * r, 10 * r]), 4)
    sp = sizes(rng, n, r) if kind in ('spheres', 'both') else []
    db = sizes(rng, rng.choice([1, 2, 3, 4, 5]), r) if kind != 'spheres' else []
    old = sizes(rng, rng.choice([0, 0, 1, 2, 4]), rng.choice([r, 2 * r]))
    beads = sp + [x for x in db for _ in (0, 1)] + old
    big = max(beads)
    room = rng.choice([.12, .25, .35])
    if flat:
        side = math.sqrt(sum(math.pi * (x + big) ** 2 for x in beads) / room)
    else:
        side = (sum(4.19 * (x + big) ** 3 for x in beads) / room) ** (1 / 3)
    if db:
        side = max(side, 4 * dx + 2 * big)
    low = [round(rng.uniform(-5, 5), 3) for _ in range(3)]
    ext = [side * rng.uniform(1, 1.5), 0 if flat else side, side * rng.uniform(1, 1.5)]
    theta, phi = 'r', 'r'
    if rng.random() < .3:
        theta = rng.choice(ANGLES)
    if flat and kind != 'periodic' or rng.random() < .2:
        phi = 0.0 if flat else rng.choice(ANGLES)
    if theta != 'r' and phi != 'r' and kind == 'periodic':
        theta = 'r'
    # particles that are already there, without overlaps, in or around the box
    there = []
    while len(there) < len(old):
        k = len(there)
        p = [low[j] + ext[j] * rng.uniform(-.1, 1.1) if kind not in ('periodic',)
             else low[j] + ext[j] * rng.random() for j in range(3)]
        if all(math.dist(p, q) >= old[k] + s for q, s in zip(there, old)):
            there.append([round(x, 4) for x in p])
    case = dict(kind=kind, low=low, high=[round(a + b, 4) for a, b in zip(low, ext)], spheres=sp, dumbbells=db,
                dx=dx, theta=theta, phi=phi, old=old, there=there, lists=rng.random() < .5,
                stream=stream(rng), seed=rng.randrange(1 << 30))
    return across(rng, case) if kind == 'periodic' and rng.random() < .5 else case


def drive(case):
    """What the simulated process does: the calls of a setup."""
    def code(rt):
        from setups import functions_positions as fp
        low, high = case['low'], case['high']
        if not case['lists']:
            low, high = np.array(low), np.array(high)
        old = np.array(case['old'])
        there = np.array(case['there']).reshape(-1, 3)
        args = [old.copy(), there.copy()]
        out = {}
        if case['kind'] in ('spheres', 'both'):
            s = np.array(case['spheres'])
            out['spheres'] = np.array(fp.randomise_spheres(low, high, s, old, there))
        if case['kind'] == 'both':
            old2 = np.concatenate([old, s])
            there2 = np.concatenate([there, out['spheres']])
        else:
            old2, there2 = old, there
        if case['kind'] != 'spheres':
            f = fp.randomise_dumbbells_periodic if case['kind'] == 'periodic' else fp.randomise_dumbbells
            kw = dict(dx=case['dx'], theta=case['theta'], phi=case['phi'])
            if len(old2):
                kw.update(current_sphere_sizes=old2, current_sphere_positions=there2)
            before = there2.copy()
            a, b = f(low, high, np.array(case['dumbbells']), **kw)
            out['positions'], out['deltax'] = np.array(a), np.array(b)
            if not np.array_equal(before, there2):
                out['moved'] = True
        if not np.array_equal(old, args[0]) or not np.array_equal(there, args[1]):
            out['moved'] = True
        st = rt.random.stream
        rt.notes.append(('placed', out, st.n, st.fair_since))
    return code


def gap(case, p, q):
    d = np.asarray(p) - np.asarray(q)
    if case['kind'] == 'periodic':
        for j in (0, 2):
            w = case['high'][j] - case['low'][j]
            d[j] -= w * round(d[j] / w)
    return float(np.linalg.norm(d))


def judge(case, out):
    """What is wrong with a returned configuration, or None."""
    eps = 1e-7
    low, high = np.array(case['low']), np.array(case['high'])
    bodies = [(np.array(p), s, 'old') for p, s in zip(case['there'], case['old'])]
    if out.get('moved'):
        return 'moved', 'the particles already there were changed'
    if case['kind'] in ('spheres', 'both'):
        s = out['spheres']
        if s.shape != (len(case['spheres']), 3):
            return 'shape', 'the positions have shape %s' % (s.shape,)
        if not np.all((s >= low - eps) & (s <= high + eps)):
            return 'outside', 'a sphere centre is not in the box: %s' % s.tolist()
        bodies += [(p, r, 'sphere %d' % k) for k, (p, r) in enumerate(zip(s, case['spheres']))]
    if case['kind'] != 'spheres':
        p, d = out['positions'], out['deltax']
        n = len(case['dumbbells'])
        if p.shape != (n, 3) or d.shape != (n, 3):
            return 'shape', 'the dumbbells have shapes %s and %s' % (p.shape, d.shape)
        if not np.all(np.isfinite(p)) or not np.all(np.isfinite(d)):
            return 'shape', 'undefined numbers in the dumbbells'
        ln = np.linalg.norm(d, axis=1)
        if np.any(np.abs(ln - case['dx']) > eps):
            return 'length', 'the bead distances are %s instead of %s' % (ln.tolist(), case['dx'])
        th, ph = case['theta'], case['phi']
        if th != 'r' and np.any(np.abs(d[:, 2] - case['dx'] * math.cos(th)) > eps):
            return 'angle', 'a dumbbell does not have the angle asked for'
        if ph != 'r' and np.any(np.abs(d[:, 0] * math.sin(ph) - d[:, 1] * math.cos(ph)) > eps):
            return 'angle', 'a dumbbell does not lie in the plane asked for'
        b1, b2 = p - .5 * d, p + .5 * d
        if case['kind'] == 'periodic':
            xz = [0, 2]
            if not np.all((p[:, xz] >= low[xz] - eps) & (p[:, xz] <= high[xz] + eps)):
                return 'outside', 'a dumbbell centre is outside the periodic box: %s' % p.tolist()
            y1 = (b1[:, 1] >= low[1] - eps) & (b1[:, 1] <= high[1] + eps)
            y2 = (b2[:, 1] >= low[1] - eps) & (b2[:, 1] <= high[1] + eps)
            if not np.all(y1 | y2):
                return 'outside', 'a dumbbell is above or below the box: %s' % p.tolist()
        else:
            for b in (b1, b2):
                if not np.all((b >= low - eps) & (b <= high + eps)):
                    return 'outside', 'a bead is not in the box: %s' % b.tolist()
        for k in range(n):
            bodies += [(b1[k], case['dumbbells'][k], 'dumbbell %d' % k),
                       (b2[k], case['dumbbells'][k], 'dumbbell %d' % k)]
    for i, (p, r, a) in enumerate(bodies):
        for q, s, b in bodies[:i]:
            if a != b and gap(case, p, q) < r + s - eps:
                return 'overlap', '%s and %s overlap: distance %.6g, radii %g and %g' % (
                    a, b, gap(case, p, q), r, s)
    return None


def needed(case):
    """Proposals each particle needs at least that many random numbers for."""
    return 3 * len(case['spheres']) + len(case['dumbbells']) * (
        3 + (case['theta'] == 'r') + (case['phi'] == 'r'))


def run(case, ctx):
    if case['kind'] == 'run':
        return whole(case, ctx)
    res = ctx.case
    w = ctx.world
    w.reset({})
    spec = dict(script=proc.SD + '/run_simulation.py', random=dict(segments=case['stream']),
                rngseed=str(case['seed']), max_events=400000, cpu=40)
    rec = ctx.run(spec, drive(case), 'placement')
    got = [x for x in rec['notes'] if x[0] == 'placed']
    if not oracle.completed(rec) or not got:
        if rec['status'] in ('budget', 'cpu', 'wall'):
            res.bad('endless', 'placement does not end: %s after %d random numbers' % (
                rec['status'], rec['kinds'].count('rand')))
        else:
            res.bad('fails', 'placement ended with %s %s: %s' % (rec['status'], rec['code'], oracle.tail(rec)))
        return
    _, out, n, fair = got[0]
    ctx.signature(repr(sorted((k, np.round(v, 9).tolist()) for k, v in out.items() if k != 'moved')))
    res.nontrivial = n > needed(case)
    res.extra['classes'] = [case['kind'], 'rejections' if n > needed(case) else 'first try']
    res.stats['random numbers'] += n
    e = judge(case, out)
    if e:
        res.bad(*e)
        return
    # enough room is left that a fair stream offers a place soon
    particles = len(case['spheres']) + len(case['dumbbells'])
    free = not case['dumbbells'] or case['theta'] == case['phi'] == 'r'
    limit = 40 * particles + 100 if free else 150 * particles + 250
    if fair is not None and n - fair > limit:
        res.bad('slow', 'placement of %d particles took %d fair random numbers although there was plenty of room'
                % (particles, n - fair))


def grid(seed):
    """A stream that offers places for 41 spheres in the box of setup 5."""
    rng = random.Random(seed)
    spots = [(a, b) for a in range(7) for b in range(7)]
    rng.shuffle(spots)
    vs = []
    for a, b in spots[:41]:
        vs += [(a * 2.25 + rng.uniform(.05, .25)) / 14.2, rng.random(), (b * 2.25 + rng.uniform(.05, .25)) / 14.2]
    return dict(segments=[dict(mode='cycle', vs=vs, n=3 * len(vs))])


def whole(case, ctx):
    """A run from random positions, stopped and repeated."""
    res = ctx.case
    c = config.make(setup=5, input=case['input'], frames=2, temp=1)
    kw = dict(cpu=240, max_events=80000)
    w = ctx.world
    w.reset({})
    rec0 = ctx.run(config.spec_for(c, rngseed=str(case['a']), random=grid(case['a']), **kw), config.code(), 'undisturbed run')
    if rec0['status'] == 'budget':
        # 41 spheres can get stuck: this stream left no room for the last ones
        res.stats['whole runs given up'] += 1
        return
    r = config.results_in(w.files())
    good = monitors.load_npz(w.files()[r[0]]) if len(r) == 1 else None
    if not oracle.completed(rec0) or good is None:
        res.bad('ends', 'an undisturbed run ended with %s %s: %s' % (
            rec0['status'], rec0['code'], oracle.tail(rec0)))
        return
    w.reset({})
    case['stop'] = make.place(case['stop'], oracle.counts_of(rec0))
    rec = ctx.run(config.spec_for(c, rngseed=str(case['a']), random=grid(case['a']), plan=[case['stop']],
                                  monitors=[dict(kind='backups')], **kw), config.code(), 'first attempt')
    saved = [x for x in rec['notes'] if x[0] == 'backup']
    rec = ctx.run(config.spec_for(c, rngseed=str(case['b']), random=grid(case['b']), clock=dict(start=1709386000.0), **kw),
                  config.code(), 'repeated under another stream')
    if rec['status'] == 'budget':
        res.stats['whole runs given up'] += 1
        return
    if not oracle.completed(rec):
        res.bad('ends', 'the repeated run ended with %s %s: %s' % (rec['status'], rec['code'], oracle.tail(rec)))
        return
    res.nontrivial = bool(saved)
    res.extra['classes'] = ['whole run']
    for p in config.results_in(w.files()):
        d = monitors.load_npz(w.files()[p])
        e = 'it is unreadable' if d is None else oracle.diff(d, good)
        if saved and e:
            res.bad('redrawn', 'there was a backup, but the repeated run does not continue from it: %s' % e)
            return
        if d is not None:
            s = np.asarray(d['centres'][0], float)
            x = judge(dict(kind='spheres', low=[-7.1, 0, -7.1], high=[7.1, 0, 7.1], spheres=[1] * 41,
                           dumbbells=[], old=[], there=[]), dict(spheres=s))
            if x:
                res.bad(*x)
                return


def smaller(case):
    if case['kind'] == 'run':
        for s in make.smaller_stops([case['stop']]):
            if s:
                yield dict(case, stop=s[0])
        return
    for s in make.smaller_list(case['stream']):
        yield dict(case, stream=s)
    for k, s in enumerate(case['stream']):
        if s['n'] > 3:
            yield dict(case, stream=case['stream'][:k] + [dict(s, n=s['n'] // 2)] + case['stream'][k + 1:])
    for k in range(len(case['old'])):
        yield dict(case, old=case['old'][:k] + case['old'][k + 1:], there=case['there'][:k] + case['there'][k + 1:])
    for key in ('spheres', 'dumbbells'):
        if len(case[key]) > 1:
            yield dict(case, **{key: case[key][:-1]})
            yield dict(case, **{key: case[key][1:]})
    if case['kind'] == 'both':
        yield dict(case, kind='spheres', dumbbells=[])
    if not case['lists']:
        yield dict(case, lists=True)
