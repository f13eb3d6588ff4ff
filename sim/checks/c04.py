"""C04: finished results appear whole, and the backup goes only after they are safe."""
import random

import numpy as np

from .. import config, make, monitors, oracle, seams

PROP = 'C04'
LEVEL = 'fault_enumeration'
CASES = {'quick': 1300, 'thorough': 7000}
RULE = ('case = configuration x one stop or failing file call in the final phase (or anywhere), with an '
        'observer reading the folder after every file operation and in the middle of every write, plus the '
        'enumeration of power-loss outcomes after every naming operation and synchronisation of the final '
        'phase of the undisturbed run; non-trivial = the fault fired during the final save')

ERRNOS = ('ENOSPC', 'EIO', 'EDQUOT', 'EROFS', 'EACCES', 'EPERM')


def gen(rng, i, tier):
    c = make.run_config(rng, frames=rng.randint(2, 8), periodic=.03)
    c['temp'] = rng.choice([1, 2, 3, 3, 4, 120])
    if not oracle.due(c, c['every']):
        c['start'] = 0
    r = rng.random()
    if i % 12 == 5:
        # a run that keeps only one kind of row
        c[rng.choice(['every', 'fevery'])] = 0
    if r < .5:
        s = make.stop(rng, classes=('final', 'final', 'final', 'change', 'any'))
        if s['do'].startswith('torn'):
            s['cls'] = 'final'
    else:
        s = dict(do='errno', errno=rng.choice(ERRNOS),
                 cls=rng.choice(['final', 'final', 'final', 'unlink', 'rename', 'fsync', 'write']),
                 pos=round(rng.random(), 4))
        if s['cls'] in ('rename', 'fsync', 'write', 'unlink') and rng.random() < .7:
            s['pos'] = .9999
        if rng.random() < .6:
            s['sticky'] = True
            s['kinds'] = rng.choice([['write', 'open+', 'trunc'], ['write', 'fsync'],
                                     ['write', 'open+', 'rename', 'fsync', 'trunc', 'mkdir', 'unlink']])
        if rng.random() < .4:
            s['part'] = True
            s['frac'] = rng.choice([.0, .3, .9])
    extra = []
    if rng.random() < .1:
        extra.append(dict(do='short', cls='final', pos=round(rng.random(), 4),
                          frac=rng.choice([.1, .5, .9])))
    prior = None
    if rng.random() < .25:
        prior = make.stop(rng, kinds=('kill',), classes=('any', 'backup', 'final'))
    return dict(config=c, fault=s, extra=extra, prior=prior, seed=rng.randrange(1 << 30))


def enumerate_power(w, journal, limit):
    """All (up to limit) power-loss outcomes of a journal, by depth-first choice."""
    n = 0
    stack = [[]]
    while stack and n < limit:
        pre = stack.pop()
        opts_seen = []

        def choose(what, opts, pre=pre, opts_seen=opts_seen):
            k = len(opts_seen)
            opts_seen.append(len(opts))
            return opts[pre[k]] if k < len(pre) else opts[0]
        files = w.after_power_cut(choose, journal)
        n += 1
        yield pre, files
        # branch on the choices beyond the prefix
        for k in range(len(opts_seen) - 1, len(pre) - 1, -1):
            for o in range(1, opts_seen[k]):
                stack.append(pre + [0] * (k - len(pre)) + [o])


def power_check(ctx, c, good, rec):
    """Outcomes of a power loss in the final phase of an undisturbed run."""
    w = ctx.world
    j = w.journal
    first = None
    # the final phase starts at the last change of a backup
    for k, op in enumerate(j):
        if op[0] == 'ren' and op[2].endswith('_TEMP.npz'):
            first = k
    if first is None:
        first = -1
    had_backup = bool(oracle.backup_frames(c))
    cache = {}
    n = 0
    for k in range(first + 1, len(j)):
        if j[k][0] == 'w' and not (k + 1 < len(j) and j[k + 1][0] != 'w'):
            continue
        gone = any(op[0] in ('unl', 'ren') and op[1].endswith('_TEMP.npz')
                   for op in j[first + 1:k + 1])
        for pre, files in enumerate_power(w, j[:k + 1], 60):
            n += 1
            whole = False
            for p in config.results_in(files):
                h = hash(files[p])
                if h not in cache:
                    d = monitors.load_npz(files[p])
                    cache[h] = 'is not a complete archive' if d is None else oracle.diff(d, good)
                if cache[h]:
                    return ('power-part', 'a power loss after operation %r can leave a results file '
                            'that %s' % (_op(j[k]), cache[h])), n
                whole = True
            if not whole and had_backup and gone:
                ok = False
                for p in config.backups_in(files):
                    h = hash(files[p])
                    if h not in cache:
                        cache[h] = '' if monitors.load_npz(files[p]) is not None else 'bad'
                    ok = ok or not cache[h]
                if not ok:
                    return ('power-both', 'a power loss after operation %r can leave neither results nor '
                            'a readable backup' % (_op(j[k]),)), n
    return None, n


def _op(op):
    return tuple(x if not isinstance(x, bytes) else len(x) for x in op)


def run(case, ctx):
    c = case['config']
    res = ctx.case
    mon = [dict(kind='results', mid=True, skip=['FILENAME.npz']), dict(kind='backups')]
    ref = oracle.clean(ctx, c, monitors=mon)
    if ref is None:
        return
    rec0, good, name = ref
    had_backup = bool(oracle.backup_frames(c))

    def seen_ok(rec):
        for x in rec['notes']:
            if x[0] != 'result':
                continue
            e = 'is not a complete archive' if x[3] is None else oracle.diff(x[3], good)
            if e:
                res.bad('part-visible', 'at event %d the results file %s %s' % (x[1], x[2], e))
                return False
        return True
    if not seen_ok(rec0):
        return
    if config.backups_in(ctx.world.files()):
        res.bad('backup-left', 'the backup is still there after an undisturbed run')
        return
    v, n = power_check(ctx, c, good, rec0)
    res.stats['power-loss outcomes enumerated'] += n
    if v:
        res.bad(*v)
        return
    counts = oracle.counts_of(rec0)
    exact = c['scheme'] != 'ab2' and c['minv'] == 1
    w = ctx.world
    w.reset(config.files_for(c))
    code = config.code()
    now = 1709286000.0
    rng = random.Random(case['seed'])
    if case['prior'] and exact:
        s = case['prior'] = make.place(case['prior'], counts)
        rec = ctx.run(config.spec_for(c, plan=[s], monitors=mon), code, 'first attempt')
        if not seen_ok(rec):
            return
        now += 86400
    else:
        case['prior'] = None
    f = case['fault'] = make.place(case['fault'], counts)
    case['extra'] = [make.place(x, counts) for x in case['extra']]
    before = len(config.backups_in(w.files()))
    old = {p: w.files()[p] for p in config.results_in(w.files())}
    rec = ctx.run(config.spec_for(c, plan=[f] + case['extra'], monitors=mon, clock={'start': now}),
                  code, 'faulty attempt')
    if not seen_ok(rec):
        return
    if rec['status'] == 'power':
        w.power_cut(lambda what, opts: rng.choice(opts))
    files = w.files()
    if any('output' in str(rec['details'][x[2]][0]) and '_TEMP' not in str(rec['details'][x[2]][0])
           or x[1] == 'unlink' for x in rec['fired']):
        res.nontrivial = True
    whole = []
    for p in config.results_in(files):
        d = monitors.load_npz(files[p])
        e = 'is not a complete archive' if d is None else oracle.diff(d, good)
        if e:
            res.bad('part-left', 'after %s the results file %s %s' % (res.trace[-1], p, e))
            return
        if p not in old:
            whole.append(p)
        elif not config.backups_in(files):
            whole.append(p)
    backups = config.backups_in(files)
    readable = [p for p in backups if monitors.load_npz(files[p]) is not None]
    if rec['status'] not in ('exit', 'killed', 'power'):
        res.bad('stuck', 'the run ended with %s' % rec['status'])
        return
    if oracle.says_complete(rec) and rec['status'] != 'power':
        if not whole and not config.results_in(files):
            res.bad('false-report', 'the run reported completion but there is no results file (%s)'
                    % res.trace[-1])
        elif backups:
            res.bad('backup-left', 'the run reported completion but its backup is still there (%s)'
                    % res.trace[-1])
        return
    if rec['status'] == 'exit':
        if rec['code'] == 0 and not oracle.says_complete(rec0):
            # this version does not report completion in words: the status counts
            if not whole:
                res.bad('false-status', 'success status without results (%s)' % res.trace[-1])
            return
        if rec['code'] == 0:
            res.bad('silent-failure', 'the run ended with success status but did not report completion (%s)'
                    % res.trace[-1])
            return
    made = len([x for x in rec['notes'] if x[0] == 'backup']) + before
    if not config.results_in(files) and not readable and made > (rec['status'] == 'power'):
        res.bad('backup-gone', 'the results were not saved and there is no readable backup (%s)'
                % res.trace[-1])
    res.extra['classes'] = [rec['status'], 'prior' if case['prior'] else 'first']


def smaller(case):
    if case['prior']:
        yield dict(case, prior=None)
    for e in make.smaller_list(case['extra']):
        yield dict(case, extra=e)
    f = case['fault']
    for k in ('sticky', 'part'):
        if f.get(k):
            yield dict(case, fault={a: b for a, b in f.items() if a != k})
    for s in make.smaller_stops([f]):
        if s:
            yield dict(case, fault=s[0])
    for c in make.smaller_config(case['config']):
        yield dict(case, config=c)
