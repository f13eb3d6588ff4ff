"""C16: what is printed, and what becomes of it, never changes what is saved."""
from .. import config, make, monitors, oracle

PROP = 'C16'
LEVEL = 'fault_enumeration'
CASES = {'quick': 900, 'thorough': 9000}
RULE = ('case = configuration x level of screen output (0-3) x failure of the screen or log (closed pipe, full disk, I/O error, once or '
        'from the n-th piece of output on) or of the matrix files of the higher levels, or a stop, then the command repeated, '
        'at the same or another level; non-trivial = the level is above 0 or a failure was met')

ERRNOS = ('EPIPE', 'EPIPE', 'ENOSPC', 'EIO', 'EBADF')


def gen(rng, i, tier):
    c = make.run_config(rng, frames=rng.randint(2, 8), periodic=.05)
    c['temp'] = rng.choice([1, 2, 2, 3, 120])
    ex = dict(printout=rng.choice([0, 1, 1, 2, 2, 3]))
    if rng.random() < .3:
        ex['use_Minfinity_only'] = True
    if rng.random() < .2 and c['input'] != 2:
        ex.update(use_drag_Minfinity=True, use_drag_R2Binfinity=True)
    if rng.random() < .2:
        ex['bead_bead_interactions'] = False
    c['extra'] = ex
    r = rng.random()
    f = None
    if r < .45:
        f = dict(do='errno', errno=rng.choice(ERRNOS), cls='out', screen=True, pos=round(rng.random(), 4))
        if rng.random() < .7:
            f['sticky'] = True
    elif r < .6 and ex['printout'] > 1:
        f = dict(do='errno', errno=rng.choice(['ENOSPC', 'EIO', 'EACCES']), cls='matrix', pos=round(rng.random(), 4))
    elif r < .75:
        f = make.stop(rng, kinds=('kill', 'int'))
    return dict(config=c, fault=f, again=rng.choice([None, 0, 1, 2]))


def level(c, n):
    return dict(c, extra=dict(c['extra'], printout=n))


def run(case, ctx):
    c = case['config']
    res = ctx.case
    w = ctx.world
    n = c['extra'].get('printout', 0)
    ref = oracle.clean(ctx, level(c, 0), 'run with the least output')
    if ref is None:
        return
    rec0, good, name = ref
    res.extra['classes'] = ['level %d' % n]
    if n:
        res.nontrivial = True
        ref = oracle.clean(ctx, c, 'run with level %d' % n)
        if ref is None:
            return
        e = oracle.diff(ref[1], good)
        if e:
            res.bad('level', 'with output level %d the saved rows are others: %s' % (n, e))
            return
        if len(ref[0]['out']) <= len(rec0['out']):
            res.bad('nothing', 'output level %d prints no more than level 0' % n)
            return
        rec0 = ref[0]
    f = case['fault']
    if f is None:
        return
    f = case['fault'] = make.place(f, oracle.counts_of(rec0))
    exact = c['scheme'] != 'ab2' and c['minv'] == 1
    w.reset(config.files_for(c))
    code = config.code()
    rec = ctx.run(config.spec_for(c, plan=[f], monitors=[dict(kind='backups', arrays=True)]), code, 'disturbed run')
    if rec['fired']:
        res.nontrivial = True
        res.extra['classes'].append('%s %s' % (f['do'], f['cls']))
    files = w.files()
    if rec['status'] not in ('exit', 'killed'):
        res.bad('stuck', 'the run ended with %s' % rec['status'])
        return
    found = config.results_in(files)
    for p in found:
        d = monitors.load_npz(files[p])
        e = 'is not a complete archive' if d is None else oracle.diff(d, good)
        if e:
            res.bad('part-left', 'after %s the results file %s' % (res.trace[-1], e))
            return
    if rec['status'] == 'exit' and rec['code'] == 0 and not found:
        res.bad('no-failure', 'after %s there are no results, but the status is success' % res.trace[-1])
        return
    if oracle.says_complete(rec) and not found:
        res.bad('reported', 'after %s completion is reported without results' % res.trace[-1])
        return
    made = [x for x in rec['notes'] if x[0] == 'backup']
    if made and not found:
        b = oracle.best_backup(files)
        if b is None or len(b[1]['centres']) < len(made[-1][3]['centres']):
            res.bad('backup-lost', 'after %s the backup is gone' % res.trace[-1])
            return
        e = oracle.prefix_of(b[1], good, c) if exact else None
        if e:
            res.bad('backup', 'after %s the backup is wrong: %s' % (res.trace[-1], e))
            return
    c2 = c if case['again'] is None else level(c, case['again'])
    rec = ctx.run(config.spec_for(c2, clock={'start': 1709286000.0 + 86400}), code, 'repeated')
    files = w.files()
    new = [p for p in config.results_in(files) if p not in found] or config.results_in(files)
    if not oracle.completed(rec) or not new:
        res.bad('not-repeatable', 'the repeated run ends with %s %s: %s' % (rec['status'], rec['code'], oracle.tail(rec)))
        return
    for p in new:
        d = monitors.load_npz(files[p])
        if d is None:
            e = 'an unreadable file'
        elif exact:
            e = oracle.diff(d, good)
        else:
            e = next(('%d rows of %s instead of %d' % (len(d[k]), k, len(good[k])) for k in config.KEYS
                      if len(d[k]) != len(good[k])), None)
        if e:
            res.bad('differs', 'the repeated run gives %s' % e)
            return


def smaller(case):
    if case['fault'] is not None:
        yield dict(case, fault=None)
    if case['again'] is not None:
        yield dict(case, again=None)
    for c in make.smaller_config(case['config']):
        yield dict(case, config=c)
    ex = case['config']['extra']
    for k in sorted(ex):
        if k != 'printout' or ex[k] > 1:
            d = {a: b for a, b in ex.items() if a != k}
            if k == 'printout':
                d[k] = ex[k] - 1
            yield dict(case, config=dict(case['config'], extra=d))
    f = case['fault']
    if f and f.get('nth'):
        for n in (0, f['nth'] // 2, f['nth'] - 1):
            yield dict(case, fault=dict(f, nth=n))
