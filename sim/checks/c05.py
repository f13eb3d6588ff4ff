"""C05: the saved rows are exactly those the saving settings ask for."""
import numpy as np

from .. import config, make, monitors, oracle
from ..config import FRC, KEYS, POS

PROP = 'C05'
LEVEL = 'exploration'
CASES = {'quick': 1100, 'thorough': 14000}
RULE = ('case = configuration x saving settings (intervals 0-6, first-saved timestep, backup interval, length); '
        'the run is compared row by row, and backup by backup as each appears, with a run that saves '
        'everything; non-trivial = some saving setting differs from "save everything"')


def gen(rng, i, tier):
    c = make.run_config(rng, frames=rng.randint(1, 13) if rng.random() < .9 else rng.randint(14, 30),
                        periodic=.03)
    n = c['frames']
    c['every'] = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, n, n + 1])
    c['fevery'] = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, n])
    c['start'] = rng.choice([0, 0, 0, 1, 2, 3, rng.randint(0, n), n - 1, n])
    c['temp'] = rng.choice([1, 1, 2, 3, 4, 5, 7, 120])
    c['backup'] = rng.random() < .85
    if c['every'] == 0 and c['fevery'] == 0:
        c['every'] = 1
    if c['scheme'] == 'rk4' and n > 10:
        c['scheme'] = 'euler'
    return dict(config=c)


def run(case, ctx):
    c = case['config']
    res = ctx.case
    # one frame longer, so that the final state is an ordinary row of it
    allc = dict(c, frames=c['frames'] + 1, every=1, fevery=1, start=0, temp=2 + c['frames'], backup=False)
    ref = oracle.clean(ctx, allc, 'run that saves everything')
    if ref is None:
        return
    full = ref[1]
    n = c['frames']
    if len(full['centres']) != n + 2 or len(full['Fa']) != n + 1:
        res.bad('everything', 'a run that saves everything holds %d states and %d force rows for %d frames'
                % (len(full['centres']), len(full['Fa']), n + 1))
        return
    res.nontrivial = any(c[k] != v for k, v in dict(every=1, fevery=1, start=0, temp=120).items())
    ref = oracle.clean(ctx, c, 'run with the saving settings',
                       monitors=[dict(kind='backups', arrays=True)])
    if ref is None:
        return
    rec, got, name = ref

    def expect(upto):
        pr = [f for f in oracle.due(c, c['every']) if f <= upto]
        if pr and pr[-1] == n - 1:
            pr = pr + [n]
        fr = [f for f in oracle.due(c, c['fevery']) if f <= upto]
        return pr, fr

    def compare(d, upto, what):
        pr, fr = expect(upto)
        for k in KEYS:
            idx = pr if k in POS else fr
            want = np.asarray(full[k])[idx] if idx else np.asarray(full[k])[:0]
            have = np.asarray(d[k])
            if len(have) != len(want):
                return '%s holds %d rows of %s, %d are due (frames %s)' % (
                    what, len(have), k, len(want), idx)
            if not oracle.same(have, want):
                return '%s: rows of %s are not those of frames %s' % (what, k, idx)
        return None
    e = compare(got, n - 1, 'the results file')
    if e:
        res.bad('rows', e)
        return
    todo = [(len(expect(f)[0]), len(expect(f)[1])) for f in oracle.backup_frames(c)]
    uniq = [x for j, x in enumerate(todo) if j == 0 or todo[j - 1] != x]
    seen = []
    last = -1
    for x in rec['notes']:
        if x[0] != 'backup':
            continue
        d = x[3]
        key = (len(d['centres']), len(d['Fa']))
        cand = [f for f in range(n) if (len(expect(f)[0]), len(expect(f)[1])) == key]
        if not cand:
            res.bad('backup-rows', 'a backup holds %d position rows and %d force rows, which are due '
                    'together at no time' % key)
            return
        e = compare(d, cand[0], 'a backup')
        if e:
            res.bad('backup-content', e)
            return
        if cand[-1] < last:
            res.bad('backup-order', 'a later backup holds fewer rows')
            return
        last = cand[0]
        seen.append(key)
    it = iter(seen)
    for want in uniq:
        if not any(s == want for s in it):
            res.bad('backup-missing', 'no backup with %d position rows and %d force rows appeared '
                    '(appeared: %s)' % (want + (seen,)))
            return
    res.stats['backups compared'] += len(seen)
    res.stats['rows compared'] += len(got['centres']) + len(got['Fa'])
    res.extra['classes'] = (c['scheme'], 'every-%d' % min(c['every'], 7), 'fevery-%d' % min(c['fevery'], 7))


def smaller(case):
    for c in make.smaller_config(case['config']):
        yield dict(case, config=c)
