"""C02: once made, a running backup is never lost before the results are saved."""
import random

import numpy as np

from .. import config, make, monitors, oracle

PROP = 'C02'
LEVEL = 'fault_enumeration'
CASES = {'quick': 900, 'thorough': 9000}
RULE = ('case = configuration x one stop or failing file call (kill, torn write, Ctrl-C, power '
        'loss, ENOSPC/EIO/EDQUOT/EROFS once or from then on, short writes) aimed mostly at backup '
        'writes, then the command repeated on a backup with a marked early row; non-trivial = the '
        'fault fired after the first backup was complete')

ERRNOS = ('ENOSPC', 'EIO', 'EDQUOT', 'EROFS', 'EACCES')


def gen(rng, i, tier):
    c = make.run_config(rng, minv=rng.random() < .3)
    c['temp'] = rng.choice([1, 1, 2, 2, 3, 4, 5])
    if c['frames'] < 4 and rng.random() < .8:
        c['frames'] += 4
    r = rng.random()
    if r < .55:
        s = make.stop(rng, classes=('backup', 'backup', 'backup', 'change', 'any'))
    else:
        s = dict(do='errno', errno=rng.choice(ERRNOS),
                 cls=rng.choice(['backup', 'backup', 'change', 'write', 'rename', 'fsync', 'open+']),
                 pos=round(rng.random(), 4))
        if rng.random() < .6:
            s['sticky'] = True
            s['kinds'] = rng.choice([['write', 'open+', 'trunc'], ['write'],
                                     ['write', 'open+', 'rename', 'fsync', 'trunc', 'mkdir']])
        if rng.random() < .4:
            s['part'] = True
            s['frac'] = rng.choice([.0, .3, .9])
    extra = []
    if rng.random() < .1:
        extra.append(dict(do='short', cls='write', pos=round(rng.random(), 4),
                          frac=rng.choice([.1, .5, .9])))
    return dict(config=c, fault=s, extra=extra, seed=rng.randrange(1 << 30),
                gap=rng.choice([0, 60, 3600, 90000]), prior=rng.random() < .3)


def expected_backups(c, first=0):
    """Distinct (position rows, force rows) of the backups, in order."""
    out = []
    for f in oracle.backup_frames(c):
        if f < first:
            continue
        p = (oracle.pos_rows(c, f), oracle.frc_rows(c, f))
        if not out or out[-1] != p:
            out.append(p)
    return out


def missing(c, rec, first=0, had=()):
    """A backup due in a completed run from frame `first` on but never made."""
    seen = list(had) + [(len(x[3]['centres']), len(x[3]['Fa'])) for x in rec['notes']
                        if x[0] == 'backup']
    it = iter(seen)
    for want in expected_backups(c, first):
        if not any(s == want for s in it):
            return ('no backup with %d position rows and %d force rows was made '
                    '(backups made: %s)' % (want + (seen,)))
    return None


def run(case, ctx):
    c = case['config']
    res = ctx.case
    mon = [dict(kind='backups', arrays=True)]
    ref = oracle.clean(ctx, c, monitors=mon)
    if ref is None:
        return
    rec0, good, name = ref
    # a backup at every multiple of the interval
    m = missing(c, rec0)
    if m:
        res.bad('interval', m)
        return
    counts = oracle.counts_of(rec0)
    w = ctx.world
    w.reset(config.files_for(c))
    rng = random.Random(case['seed'])
    now = 1709286000.0
    code = config.code()
    base = 0
    ledger = []
    if case['prior']:
        # first a stop somewhere, so that the faulty run is itself a continuation
        s0 = make.place(dict(do='kill', cls='any', pos=round(rng.random() * .9, 4)), counts)
        rec = ctx.run(config.spec_for(c, plan=[s0], monitors=mon, clock={'start': now}), code,
                      'first attempt')
        if rec['status'] != 'killed':
            return
        now += case['gap'] + 61
        ledger = [len(x[3]['centres']) for x in rec['notes'] if x[0] == 'backup']
        b = oracle.best_backup(w.files())
        base = len(b[1]['centres']) if b else 0
    f = case['fault'] = make.place(case['fault'], counts,
                                   1 - (base / max(1, len(good['centres']))))
    case['extra'] = [make.place(x, counts) for x in case['extra']]
    rec = ctx.run(config.spec_for(c, plan=[f] + case['extra'], monitors=mon,
                                  clock={'start': now}), code, 'faulty attempt')
    now += case['gap'] + 61
    made = ledger + [len(x[3]['centres']) for x in rec['notes'] if x[0] == 'backup']
    if rec['status'] == 'power':
        w.power_cut(lambda what, opts: rng.choice(opts))
        # the last one may have been lost with the power
        need = max(made[:-1] + [0])
    else:
        need = max(made + [0])
    files = w.files()
    fired = [x for x in rec['fired'] if not x[0].startswith('short')]
    if fired and need:
        res.nontrivial = True
    results = [p for p in config.results_in(files) if monitors.load_npz(files[p]) is not None]
    b = oracle.best_backup(files)
    have = len(b[1]['centres']) if b else 0
    if not results and have < need:
        res.bad('lost', 'a backup with %d rows had been completed, but after %s the best readable '
                'one has %d' % (need, res.trace[-1], have))
        return
    if rec['status'] not in ('exit', 'killed', 'power'):
        res.bad('stuck', 'the run ended with %s' % rec['status'])
        return
    before = results
    if b is not None and not results:
        # repeat the command; an early row carries a mark that only the backup has
        d = {k: np.array(v) for k, v in b[1].items()}
        marked = have >= 2 or oracle.restart_frame(c, have) > 0
        if marked:
            d['centres'] = d['centres'].astype(float)
            d['centres'][0] += 0.0009765625
            w.put(b[0], config.npz(d))
            w.commit()
    else:
        marked = False
    rec2 = ctx.run(config.spec_for(c, monitors=mon, clock={'start': now}), code, 'repeated')
    if not oracle.completed(rec2):
        res.bad('repeat-fails', 'the repeated command ended with %s %s: %s' % (
            rec2['status'], rec2['code'], oracle.tail(rec2)))
        return
    files = w.files()
    results = config.results_in(files)
    if not results:
        res.bad('no-results', 'the repeated command left no results')
        return
    if b is not None and not before:
        m = missing(c, rec2, oracle.restart_frame(c, have), [(have, len(b[1]['Fa']))])
        if m:
            res.bad('interval', 'continuing from a backup with %d rows, %s' % (have, m))
            return
    if marked:
        ok = False
        for p in results:
            d = monitors.load_npz(files[p])
            if d is not None and len(d['centres']) and oracle.same(
                    np.asarray(d['centres'])[0], np.asarray(good['centres'], float)[0]
                    + 0.0009765625):
                ok = True
        if not ok:
            res.bad('not-used', 'the repeated command did not continue from the backup with %d '
                    'rows (%s)' % (have, res.trace[-2]))
    res.extra['classes'] = (rec['status'], 'marked' if marked else 'unmarked',
                            'continuation' if case['prior'] else 'first')


def smaller(case):
    if case['prior']:
        yield dict(case, prior=False)
    for e in make.smaller_list(case['extra']):
        yield dict(case, extra=e)
    f = case['fault']
    for k in ('sticky', 'part'):
        if f.get(k):
            yield dict(case, fault={a: b for a, b in f.items() if a != k})
    for s in make.smaller_stops([f]):
        if s:
            yield dict(case, fault=s[0])
    for c in make.smaller_config(case['config']):
        yield dict(case, config=c)
