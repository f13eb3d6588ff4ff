"""C17: however a run is specified, it is the same run."""
import os
import random

import numpy as np

from .. import config, make, monitors, oracle

PROP = 'C17'
LEVEL = 'fault_enumeration'
CASES = {'quick': 1000, 'thorough': 10000}
RULE = ('case = configuration x 1-4 ways of asking for it (no arguments and a description, the first 1 to 5 values on '
        'the command line with the rest in the settings, a sixth value, other notations of the same numbers) x a stop in '
        'each attempt but the last; non-trivial = two different ways were used for one run, or fewer than five values were '
        'given')
NOTE = 'Values in the settings are assigned to the settings module after it was read, for those not on the command line.'

MARK = 0.0009765625
DESCS = ['', 'test', 'my run', 'a-b', 'trial_2', 'x-t9-M3', 's1-i1', 'UPPER', '2nd', '-', 'p.q']


def notations(rng, n):
    """Other ways of writing a whole number."""
    t = [str(n), str(n), str(n), '%+d' % n]
    if n >= 0:
        t += ['0%d' % n, ' %d' % n, '%d ' % n]
    return rng.choice(t)


def real(rng, dt):
    x = float(dt)
    t = [dt, repr(x), '%.12e' % x, '+' + dt, repr(x) + ' ', ('%.12f' % x)]
    return rng.choice([s for s in t if float(s) == x])


def way(rng, c):
    r = rng.random()
    k = 0 if r < .25 else rng.choice([1, 2, 3, 4, 4, 5, 5, 6])
    a = [notations(rng, c['setup']), notations(rng, c['input']), real(rng, c['dt']), notations(rng, c['frames']),
         c['form'], rng.choice(['False', 'false', '0', 'F'])][:k]
    return dict(argv=a, desc=rng.choice(DESCS) if k == 0 else None)


def plain(c, n):
    """The first n values in plain notation."""
    return dict(argv=[str(c['setup']), str(c['input']), c['dt'], str(c['frames']), c['form'], 'False'][:n],
                desc=None if n else '')


def gen(rng, i, tier):
    c = make.run_config(rng, minv=False, schemes=('euler', 'euler', 'rk4'))
    c['desc'] = None
    if rng.random() < .25:
        c['dt'] = rng.choice(['0.1234567', '0.0312500001', '0.30000000000000004', '1e-7', '0.0000123456789'])
    c['temp'] = rng.choice([1, 1, 2, 3])
    if c['every'] <= 0 or c['fevery'] <= 0:
        c['every'], c['fevery'] = 1, 1
    n = rng.choice([1, 2, 2, 2, 3, 4])
    return dict(config=c, ways=[way(rng, c) for _ in range(n)],
                stops=[make.stop(rng) for _ in range(n - 1)], seed=rng.randrange(1 << 30),
                gap=rng.choice([0, 60, 7200]))


def spec_for(c, v, **kw):
    """The configuration asked for in the way v."""
    s = config.spec_for(dict(c, desc=None), **kw)
    s['argv'] = v['argv']
    st = s['settings']
    rest = [('setup_number', c['setup']), ('input_number', c['input']), ('timestep', float(c['dt'])),
            ('num_frames', c['frames']), ('input_form', c['form'])][len(v['argv']):]
    st.update(rest)
    if v['desc'] is not None:
        s['input'] = [v['desc']]
    return s


def tell(v):
    return 'the values %s on the command line' % v['argv'] if v['argv'] else 'no arguments and the description %r' % v['desc']


def body(path):
    """Name of a saved file without its timestamp and ending."""
    return os.path.basename(path)[10:-len('.npz')]


def run(case, ctx):
    c = case['config']
    res = ctx.case
    ref = oracle.clean(ctx, c)
    if ref is None:
        return
    rec0, good, name = ref
    w = ctx.world
    w.reset(config.files_for(c))
    code = config.code()
    counts = oracle.counts_of(rec0)
    rng = random.Random(case['seed'])
    now = 1709286000.0 + 7200
    ways = case['ways']
    if len({repr(v) for v in ways}) > 1 or len(ways[0]['argv']) < 5:
        res.nontrivial = True
    ctx.signature(*[repr(v) for v in ways])
    owner = ways[0]                # who began the backup that is there
    marked = False
    for k, v in enumerate(ways):
        last = k == len(ways) - 1
        plan = []
        if not last:
            case['stops'][k] = make.place(case['stops'][k], counts)
            plan = [case['stops'][k]]
        had = set(config.results_in(w.files()))
        b = oracle.best_backup(w.files())
        if b is None:
            owner, marked = v, False
        rec = ctx.run(spec_for(c, v, plan=plan, clock={'start': now}), code, 'run with ' + tell(v))
        now += case['gap'] + 61
        if rec['status'] == 'power':
            w.power_cut(lambda what, opts: rng.choice(opts))
        files = w.files()
        results = config.results_in(files)
        if oracle.completed(rec) or last:
            if not oracle.completed(rec):
                res.bad('fails', 'with %s the run ended with %s %s: %s' % (tell(v), rec['status'], rec['code'],
                                                                           oracle.tail(rec)))
                return
            new = [p for p in results if p not in had] or results
            if not new:
                res.bad('no-results', 'with %s the run left no results' % tell(v))
                return
            d = monitors.load_npz(files[new[-1]])
            if d is None:
                res.bad('unreadable', 'with %s the results are unreadable' % tell(v))
                return
            want = {a: np.array(x) for a, x in good.items()}
            if marked:
                want['centres'] = want['centres'].astype(float)
                want['centres'][0] += MARK
                if oracle.diff(d, want) and not oracle.diff(d, good):
                    res.bad('begins-again', 'begun with %s and stopped, the run begins again with %s' % (
                        tell(owner), tell(v)))
                    return
            e = oracle.diff(d, want)
            if e:
                res.bad('differs', 'with %s the saved rows are others than with all values in plain notation: %s' % (
                    tell(v), e))
                return
            left = config.backups_in(files)
            if left:
                res.bad('backup-left', 'with %s the run completed but left %s' % (tell(v), left))
                return
            texts = [body(name) + ('-' + u['desc'] if u['desc'] else '') for u in ([v] if b is None else ways[:k + 1])]
            if body(new[-1]) not in texts:
                res.bad('name', 'with %s the file is called %s after its timestamp, not %s' % (
                    tell(v), body(new[-1]), ' or '.join(texts)))
                return
            break
        if any(monitors.load_npz(files[p]) is not None for p in results):
            # stopped after the results were saved
            continue
        b = oracle.best_backup(files)
        have = len(b[1]['centres']) if b else 0
        if b is not None and have >= 2 and not marked:
            d = {a: np.array(x) for a, x in b[1].items()}
            if oracle.same(d['centres'][0], good['centres'][0]):
                d['centres'] = d['centres'].astype(float)
                d['centres'][0] += MARK
                w.put(b[0], config.npz(d))
                w.commit()
                marked = True
                res.stats['backups marked'] = res.stats.get('backups marked', 0) + 1
    res.extra['classes'] = ['%d arguments' % len(v['argv']) for v in ways]


def smaller(case):
    n = len(case['ways'])
    for k in range(n):
        if n > 1:
            yield dict(case, ways=case['ways'][:k] + case['ways'][k + 1:],
                       stops=(case['stops'][:k] + case['stops'][k + 1:])[:n - 2])
    for k, s in enumerate(case['stops']):
        for t in make.smaller_stops([s]):
            if t:
                yield dict(case, stops=case['stops'][:k] + t + case['stops'][k + 1:])
    c = case['config']
    for k, v in enumerate(case['ways']):
        for m in sorted({5, len(v['argv'])}):
            u = plain(c, m)
            if u != v and len(v['argv']) <= m:
                yield dict(case, ways=case['ways'][:k] + [u] + case['ways'][k + 1:])
    free = all(not v['argv'] or v == plain(c, len(v['argv'])) for v in case['ways'])
    for d in make.smaller_config(c):
        if free:
            yield dict(case, config=d, ways=[plain(d, len(v['argv'])) if v['argv'] else v for v in case['ways']])
        elif all(d[x] == c[x] for x in ('setup', 'input', 'dt', 'frames', 'form')):
            yield dict(case, config=d)
