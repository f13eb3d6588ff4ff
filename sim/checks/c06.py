"""C06: the clock and the host never change or stop a run."""
import os
import random

from .. import alone, config, make, monitors, oracle, real

PROP = 'C06'
LEVEL = 'exploration'
CASES = {'quick': 900, 'thorough': 9000}
RULE = ('case = configuration x clock (start, pace, jumps by seconds to decades, frozen, jitter) x '
        'time zone x host name x memory readings x folder listing order x hash seed, half of them '
        'with a stop and a repetition under another clock; non-trivial = the clock jumped, stood '
        'still or ran backwards, or the start is next to a calendar boundary; one case in sixty is run by an '
        'ordinary interpreter on the real clock, host and disk and compared with the simulated run')

STARTS = [30.0, 86399.0, 915148770.0, 946684790.0, 951868795.0, 1709251195.0,
          1711846750.0, 1729987150.0, 1735689590.0, 2147483640.0, 4107542395.0,
          4133980790.0, 7258000000.0, 1697997000.0]
ZONES = ['UTC', 'GMT0BST,M3.5.0/1,M10.5.0', 'EST5EDT,M3.2.0,M11.1.0',
         'NZST-12NZDT,M9.5.0,M4.1.0/3', '<+1345>-13:45', '<-12>12']
NAMES = ['simhost', '', 'a', 'node-17.cluster.example.org', 'x' * 200, 'host with spaces',
         'höst', '100%s{}', 'XXXXXX01', 'rack7/node3', 'output', '-s8-i1-']
SIZES = [0, 1, 999, 1023, 1024, 10 ** 6, 123456789, 2 ** 40, 2 ** 63, 10 ** 30]
LEAPS = [1, -1, 59, -60, 3600, -3600, 86400, -86400, 31536000, -31536000, 10 ** 9, -10 ** 9,
         3 * 10 ** 9, -3 * 10 ** 9, 0.001, -0.001]


def clock(rng):
    k = dict(start=rng.choice(STARTS + [float(rng.randrange(7258000000)) for _ in range(6)]),
             mode=rng.choice(['steady', 'steady', 'frozen', 'jitter']),
             step=rng.choice([1e-9, 1e-6, .001, .01, 1, 59, 3600, 1e5, 2e7]),
             jumps=[[round(rng.random(), 4), rng.choice(LEAPS)]
                    for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))])
    if rng.random() < .7:
        k['tz'] = rng.choice(ZONES)
    return k


def host(rng):
    return dict(name=rng.choice(NAMES),
                mem=[rng.choice(SIZES) for _ in range(rng.randint(1, 4))])


def gen(rng, i, tier):
    frames = rng.choice([None, None, None, rng.randint(19, 45)])
    c = make.run_config(rng, frames=frames, periodic=.5 if i % 60 == 20 else .03)
    if frames and c['scheme'] == 'rk4':
        c['scheme'] = 'euler'
    if rng.random() < .15:
        c['email'] = True
    if i % 60 == 20:
        c['email'], c['desc'] = False, None
    if rng.random() < .2:
        c['temp'] = 1
    stop = None
    if rng.random() < .5:
        c['minv'] = 1
        if c['scheme'] == 'ab2':
            c['scheme'] = 'euler'
        stop = make.stop(rng, kinds=('kill', 'kill', 'int'))
    clocks = [clock(rng), clock(rng)]
    if i % 15 == 4:
        # a leap in one of the first of many frames: the predicted end is millennia away
        c['frames'], c['scheme'] = rng.randint(60, 110), 'euler'
        c['every'], c['fevery'], c['start'] = rng.choice([1, 7]), rng.choice([1, 7]), 0
        if c['particles']:
            c['particles'] = {k: v[:1] for k, v in c['particles'].items()}
        for k in clocks:
            k['jumps'].append([round(rng.random() * 2.5 / c['frames'], 4), rng.choice(LEAPS[-6:-2])])
    return dict(config=c, clocks=clocks, hosts=[host(rng), host(rng)],
                listing=rng.choice(['sorted', 'reverse', 'shuffle']),
                seed=rng.randrange(1 << 30), stop=stop,
                others=rng.choice([0, 0, 0, 1, 3]), real=i % 60 == 20,
                hash=rng.randrange(1, 1 << 30) if i % 45 == 7 else None)


def moment(k, reads):
    """Jumps are given as a share of all readings."""
    d = dict(k)
    d['jumps'] = [[int(a * max(1, reads)), b] for a, b in k['jumps']]
    return d


def rest(path):
    """File name without the timestamp it begins with."""
    return path.split('/')[-1].partition('-')[2]


def on_this_machine(c, good, name, ctx):
    """The same run by an ordinary interpreter, on the real clock and host."""
    res = ctx.case
    res.extra['classes'] = ['real clock and host']
    status, files, words = real.run(os.path.join(ctx.world.root + '-real'), c)
    if status is None:
        return
    res.nontrivial = True
    ctx.signature('real', status)
    if status:
        res.bad('ends', 'on the real clock and host the run ended with status %d: %s' % (status, words))
        return
    results = config.results_in(files)
    if len(results) != 1 or rest(results[0]) != rest(name):
        res.bad('results', 'on the real clock and host there are %s' % (results or 'no results'))
        return
    e = oracle.diff(monitors.load_npz(files[results[0]]), good)
    if e:
        res.bad('arrays', 'on the real clock and host the saved arrays differ: %s' % e)


def run(case, ctx):
    c = case['config']
    res = ctx.case
    ref = oracle.clean(ctx, c, clock={'start': 1709286000.0})
    if ref is None:
        return
    rec0, good, name = ref
    if case.get('real'):
        return on_this_machine(c, good, name, ctx)
    reads = rec0['clock']['reads']
    counts = oracle.counts_of(rec0)
    w = ctx.world
    files = config.files_for(c)
    other = config.npz(good)
    for k in range(case['others']):
        # backups of other runs, so that the listing order could matter
        files['output/%d-s9%d-i1-%dfr-t0p1-M1_TEMP.npz' % (2401010000 + k, k, 5 + k)] = other
    w.reset(files)
    plans = [[]]
    if case['stop']:
        case['stop'] = make.place(case['stop'], counts)
        plans = [[case['stop']], []]
    code = config.code()
    for j, plan in enumerate(plans):
        before = config.results_in(w.files())
        spec = config.spec_for(c, plan=plan, clock=moment(case['clocks'][j], reads),
                               host=case['hosts'][j], listing=case['listing'],
                               rngseed='%d-%d' % (case['seed'], j),
                               monitors=[dict(kind='backups')])
        label = 'run under clock %d' % (j + 1)
        if case['hash']:
            rec = alone.run(w, spec, dict(PYTHONHASHSEED=str(case['hash'] % 4294967295)))
            ctx.note(rec, label + ' with another hash seed')
        else:
            rec = ctx.run(spec, code, label)
        k = case['clocks'][j]
        if (rec['clock'] or {}).get('jumped') or k['mode'] != 'steady' or k['start'] in STARTS:
            res.nontrivial = True
        for x in rec['notes']:
            if x[0] == 'backup' and rest(x[2]) != rest(name).replace('.npz', '_TEMP.npz'):
                res.bad('name', 'the backup is called %r, under a steady clock its name would '
                        'end in %r' % (x[2], rest(name).replace('.npz', '_TEMP.npz')))
                return
        stopped = bool([f for f in rec['fired'] if f[0] in ('kill', 'int')])
        if not plan or not stopped:
            break
    if stopped:
        return
    if not oracle.completed(rec):
        res.bad('ends', '%s: the run ended with %s %s: %s' % (
            res.trace[-1], rec['status'], rec['code'], oracle.tail(rec)))
        return
    got = w.files()
    results = config.results_in(got)
    new = [p for p in results if p not in before]
    if len(new) != 1 and not (before and not new):
        res.bad('results', '%d new results files after %s: %s' % (len(new), res.trace[-1], new))
        return
    for p in results:
        if rest(p) != rest(name):
            res.bad('name', 'the results file is called %r, under a steady clock its name would '
                    'end in %r' % (p, rest(name)))
            return
        d = monitors.load_npz(got[p])
        if d is None:
            res.bad('results', 'the results file %s is unreadable' % p)
            return
        x = oracle.diff(d, good)
        if x:
            res.bad('rows', 'under another clock or host the saved arrays differ: %s' % x)
            return
    res.extra['classes'] = (case['clocks'][0]['mode'], 'repeated' if len(plans) > 1 else 'single',
                            'hash seed' if case['hash'] else 'same interpreter')


def smaller(case):
    if case['hash']:
        yield dict(case, hash=None)
    if case['stop']:
        yield dict(case, stop=None)
        for s in make.smaller_stops([case['stop']]):
            if s:
                yield dict(case, stop=s[0])
    if case['others']:
        yield dict(case, others=0)
    if case['listing'] != 'sorted':
        yield dict(case, listing='sorted')
    for j in (0, 1):
        def put(key, v):
            l = list(case[key])
            l[j] = v
            return dict(case, **{key: l})
        k = case['clocks'][j]
        plain = dict(start=1709286000.0, mode='steady', step=.01, jumps=[])
        if k != plain:
            yield put('clocks', plain)
        for a, b in plain.items():
            if k.get(a) != b:
                yield put('clocks', dict(k, **{a: b}))
        if 'tz' in k:
            yield put('clocks', {a: b for a, b in k.items() if a != 'tz'})
        for jj in make.smaller_list(k['jumps']):
            yield put('clocks', dict(k, jumps=jj))
        h = case['hosts'][j]
        if h != dict(name='simhost', mem=[123456789]):
            yield put('hosts', dict(name='simhost', mem=[123456789]))
            yield put('hosts', dict(h, name='simhost'))
            yield put('hosts', dict(h, mem=[123456789]))
    for c in make.smaller_config(case['config']):
        yield dict(case, config=c)
