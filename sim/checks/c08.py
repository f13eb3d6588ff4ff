"""C08: different runs sharing an output folder do not affect each other."""
import random

from .. import config, make, monitors, oracle, sched

PROP = 'C08'
LEVEL = 'exploration'
CASES = {'quick': 650, 'thorough': 6000}
RULE = ('case = 2 to 4 runs with near-equal identities in one folder x interleaving of their file '
        'operations (uniform, sticky, round-robin, priorities with change points, late starts) x stops and '
        'repetitions of some of them; distinct = different sequence of operations; non-trivial = at least '
        'three switches between runs while two were under way')

# timesteps that are close in value or in how they are written
NEAR = [['0.1', '0.1000001', '0.10000000000000002', '0.11'], ['0.1', '0.01', '0.001', '1e-05'],
        ['1e-05', '1e-06', '1.5e-05', '2e-05'], ['0.25', '0.2', '0.5', '0.125'],
        ['1.0', '0.1', '10.0', '0.01'], ['5e-4', '0.0005000000001', '5e-05', '0.005']]


def variants(rng, base, n):
    """n configurations that differ from each other in the four numbers."""
    out = [base]
    near = rng.choice(NEAR)
    base['dt'] = near[0]
    seen = {ident(base)}
    while len(out) < n:
        c = dict(rng.choice(out))
        what = rng.choice(['setup', 'input', 'frames', 'frames', 'dt', 'dt'])
        if what == 'dt':
            c['dt'] = rng.choice(near)
        elif what == 'frames':
            f = c['frames']
            c['frames'] = rng.choice([f + 1, f + 10, f * 10 if f <= 4 else f + 2, max(2, f - 1)])
            if c['frames'] > 15:
                c['scheme'] = 'euler'
        elif what == 'setup':
            c['setup'] = rng.choice([2, 4, 8, -2, -4, -8])
            if c['setup'] != 8:
                c['input'] = rng.choice([1, 7])
                c['form'] = 'fte'
            elif base['setup'] != 8:
                continue
            else:
                c['input'], c['form'] = base['input'], base['form']
        elif c['form'] == 'fte':
            c['input'] = rng.choice([1, 3, 4, 7] if c['setup'] == 8 else [1, 7, -1, -7])
        else:
            c['input'] = rng.choice([3, 7]) if c['form'] == 'fts' else c['input']
        if ident(c) in seen:
            continue
        seen.add(ident(c))
        c.update(every=rng.choice([base['every'], 1, 2]), fevery=rng.choice([base['fevery'], 1, 2]),
                 temp=rng.choice([1, 2, 3, 4]))
        out.append(c)
    return out


def ident(c):
    return (c['setup'], c['input'], c['frames'], float(c['dt']))


def gen(rng, i, tier):
    base = make.run_config(rng, frames=rng.randint(2, 6), minv=False, periodic=0,
                           schemes=('euler', 'euler', 'euler', 'rk4'))
    base['temp'] = rng.choice([1, 1, 2, 3])
    base['desc'] = None
    base['start'] = 0
    cs = variants(rng, base, rng.choice([2, 2, 2, 3, 3, 4]))
    stops = []
    for k in range(len(cs)):
        # stops of this lane, each followed by a repetition
        stops.append([make.stop(rng, kinds=('kill', 'torn', 'int'))
                      for _ in range(rng.choice([0, 0, 1, 1, 2]))])
    return dict(configs=cs, stops=stops, policy=rng.choice(sched.POLICIES),
                seed=rng.randrange(1 << 30), schedule=None,
                clocks=[rng.choice([0, 0, 0, 20, 61, 3600, 86400]) for _ in cs],
                listing=rng.choice(['sorted', 'reverse', 'shuffle']))


def rest(path):
    return path.split('/')[-1].partition('-')[2]


def run(case, ctx):
    cs = case['configs']
    res = ctx.case
    w = ctx.world
    code = config.code()
    alone = []
    files = {}
    for c in cs:
        files.update(config.files_for(c))
    for k, c in enumerate(cs):
        ref = oracle.clean(ctx, c, 'run %d alone' % (k + 1))
        if ref is None:
            return
        alone.append(ref)
    names = [rest(a[2])[:-4] for a in alone]
    if len(set(names)) < len(names):
        res.bad('names', 'different runs use the same file name: %s' % names)
        return
    w.reset(files)
    lanes = []
    now = 1709286000.0
    for k, c in enumerate(cs):
        counts = oracle.counts_of(alone[k][0])
        case['stops'][k] = [make.place(s, counts) for s in case['stops'][k]]
        specs = [config.spec_for(c, plan=[s], clock=dict(start=now + case['clocks'][k] + 100 * j),
                                 listing=case['listing'], rngseed='%d-%d-%d' % (case['seed'], k, j))
                 for j, s in enumerate(case['stops'][k])]
        n = len(specs)
        specs.append(config.spec_for(c, clock=dict(start=now + case['clocks'][k] + 100 * n),
                                     listing=case['listing'],
                                     rngseed='%d-%d-%d' % (case['seed'], k, n)))
        lanes.append(sched.Lane(specs, code))
    case['schedule'], log = sched.interleave(w, lanes, case['policy'],
                                             random.Random(case['seed']), case['schedule'])
    for k, l in enumerate(lanes):
        for j, rec in enumerate(l.recs):
            ctx.note(rec, 'run %d, attempt %d of %d' % (k + 1, j + 1, len(l.specs)))
    ctx.signature([(i, kind, str(d)) for i, _, kind, d in log])
    switches = sum(1 for a, b in zip(log, log[1:]) if a[0] != b[0])
    res.stats['switches between runs'] += switches
    res.nontrivial = switches >= 3
    res.extra['classes'] = [case['policy'], '%d runs' % len(cs),
                            '%d processes' % sum(len(l.recs) for l in lanes)]
    # who touched whose files
    owner = {}
    for i, a, kind, d in log:
        if kind in ('open+', 'write', 'trunc', 'unlink', 'rename', 'link'):
            # each event names one path (both, for a renaming)
            paths = [str(x) for x in d] if isinstance(d, (tuple, list)) else [str(d)]
            for p in paths:
                if not p.endswith('.npz') or 'output' not in p:
                    continue
                if p in files or owner.setdefault(p, i) != i:
                    res.bad('touched', 'run %d (attempt %d) did %s on %s, a file of %s' % (
                        i + 1, a, kind, p, 'the folder' if p in files else 'run %d' % (owner[p] + 1)))
                    return
    got = w.files()
    for p, b in files.items():
        if got.get(p) != b:
            res.bad('touched', 'the file %s that belongs to none of the runs was changed' % p)
            return
    for k, l in enumerate(lanes):
        rec = l.recs[-1]
        if not oracle.completed(rec):
            res.bad('ends', 'run %d ended with %s %s when others shared its folder: %s'
                    % (k + 1, rec['status'], rec['code'], oracle.tail(rec)))
            return
    results = config.results_in(got)
    for k in range(len(cs)):
        mine = [p for p in results if rest(p)[:-4] == names[k]]
        if not mine:
            res.bad('results', 'run %d left no results file; there are %s' % (k + 1, results))
            return
        for p in mine:
            d = monitors.load_npz(got[p])
            e = 'it is unreadable' if d is None else oracle.diff(d, alone[k][1])
            if e:
                res.bad('rows', 'run %d does not give the results it gives alone: %s' % (k + 1, e))
                return
        results = [p for p in results if p not in mine]
    if results:
        res.bad('results', 'results files of no run: %s' % results)
        return
    if config.backups_in(got):
        res.bad('left', 'backups left behind by completed runs: %s' % config.backups_in(got))


def smaller(case):
    n = len(case['configs'])
    if n > 2:
        for k in range(n):
            keep = [x for x in range(n) if x != k]
            sch = case['schedule']
            if sch is not None:
                sch = sched.join([[keep.index(a), b] for a, b in sch if a != k])
            yield dict(case, configs=[case['configs'][x] for x in keep],
                       stops=[case['stops'][x] for x in keep],
                       clocks=[case['clocks'][x] for x in keep], schedule=sch)
    for k in range(n):
        for s in make.smaller_stops(case['stops'][k]):
            yield dict(case, stops=case['stops'][:k] + [s] + case['stops'][k + 1:])
    if case['schedule']:
        for s in sched.simpler(case['schedule']):
            yield dict(case, schedule=s)
    if any(case['clocks']):
        yield dict(case, clocks=[0] * n)
    if case['listing'] != 'sorted':
        yield dict(case, listing='sorted')
    for k in range(n):
        c = case['configs'][k]
        for key, v in (('every', 1), ('fevery', 1), ('temp', 1), ('flat', False), ('scheme', 'euler')):
            if c[key] != v:
                yield dict(case, configs=case['configs'][:k] + [dict(c, **{key: v})]
                           + case['configs'][k + 1:])
