"""C03: damaged or unrelated backup files never stop or contaminate a run."""
import random
import time

import numpy as np

from .. import config, make, monitors, oracle
from ..config import FRC, KEYS, POS

PROP = 'C03'
LEVEL = 'exploration'
CASES = {'quick': 900, 'thorough': 9000}
RULE = ('case = configuration x folder of 1-7 leftover backup files (usable, damaged, foreign, '
        'oddly named, unreadable) x listing order x read fault; non-trivial = at least one '
        'leftover file that must not be used or more than one usable backup')

DAMAGE = ('cut', 'empty', 'garbage', 'zeros', 'flip', 'lacks', 'particles', 'dir', 'link', 'loop',
          'denied', 'norows', 'pickle', 'text', 'notzip-array', 'swapkind', 'tail')
ODD = ('_TEMP.npz', 'foo_TEMP.npz', 'a-b-c-d-e_TEMP.npz', 'x-s2-i1_TEMP.npz',
       '%(ts)s-sX-i%(i)d-%(n)dfr-t%(t)s-M1_TEMP.npz', '%(ts)s-s%(s)d-i%(i)d-%(n)dfr-t-M1_TEMP.npz',
       '----_TEMP.npz', '-----------_TEMP.npz', '%(ts)s-s%(s)d-i-%(n)dfr-t%(t)s-M1_TEMP.npz',
       '%(ts)s-s%(s)d-i%(i)d-fr-t%(t)s-M1_TEMP.npz', '%(ts)s-s%(s)d-i%(i)d-%(n)dfr_TEMP.npz',
       'my old run-v2-final-copy-e_TEMP.npz', 'notes -1- 2_TEMP.npz',
       '%(ts)s-s%(s)d-i%(i)d-%(n)dfr-t1e_TEMP.npz', '%(ts)s-s%(s)d-i%(i)d-%(n)dfr-te-M1_TEMP.npz',
       '%(ts)s-s-i-fr-t_TEMP.npz', 'backup_%(ts)s_TEMP.npz',
       '%(ts)s-s1.5-i%(i)d-%(n)dfr-t%(t)s-M1_TEMP.npz')


def tname(dt):
    return str(float(dt)).replace('.', 'p')


def gen(rng, i, tier):
    c = make.run_config(rng, frames=rng.randint(2, 9), periodic=.03)
    if rng.random() < .35:
        c['every'] = c['fevery'] = 1
        c['start'] = 0
    if not oracle.due(c, c['every']):
        c['start'] = 0
    items = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5, 7])):
        r = rng.random()
        it = dict(prog=round(rng.random(), 3), age=rng.randrange(3, 400000))
        if r < .34:
            it['kind'] = 'usable'
            it['suffix'] = rng.choice(['', '-gravity', '-x', '-oscillatory-background-flow', '-e'])
            it['M'] = rng.choice([c['minv'], c['minv'], 1, 7])
        elif r < .68:
            it['kind'] = 'damaged'
            it['how'] = rng.choice(DAMAGE)
            it['arg'] = round(rng.random(), 3)
            it['key'] = rng.choice(KEYS)
            it['suffix'] = rng.choice(['', '-gravity'])
            it['M'] = c['minv']
        elif r < .9:
            it['kind'] = 'foreign'
            it['differs'] = rng.choice(['setup', 'input', 'frames', 'dt', 'dt', 'frames'])
            it['value'] = foreign_value(rng, c, it['differs'])
            it['suffix'] = rng.choice(['', '-gravity'])
            it['M'] = c['minv']
        else:
            it['kind'] = 'odd'
            it['name'] = rng.choice(ODD)
            it['body'] = rng.choice(['usable', 'garbage', 'empty'])
        items.append(it)
    return dict(config=c, items=items, listing=rng.choice(['sorted', 'reverse', 'shuffle']),
                read=rng.choice([None] * 5 + [dict(do='errno', errno=rng.choice(['EIO', 'EACCES', 'ESTALE']),
                                                   cls='bread', nth=rng.randrange(0, 40))]),
                stop=rng.choice([None] * 6 + [make.stop(rng, kinds=('kill', 'torn', 'int'))]),
                seed=rng.randrange(1 << 30))


def foreign_value(rng, c, what):
    if what == 'setup':
        return rng.choice([x for x in (1, 2, 4, 5, 8, 18, 80, 28, -c['setup'], -c['setup']) if x != c['setup']])
    if what == 'input':
        return rng.choice([x for x in (1, 2, 3, 4, 5, 7, 11, 17, 37, -c['input'], -c['input']) if x != c['input']])
    if what == 'frames':
        n = c['frames']
        return rng.choice([n + 1, n - 1, 10 * n, n + 10, int('1%d' % n), int('%d0' % n), n * 2])
    f = float(c['dt'])
    v = rng.choice([f * 10, f / 10, f * 2, f * (1 + 1e-6), f + 1e-9, f * 100, f / 1000, 1.0 + f,
                    f * (1 + 1e-12), f * 1e-5])
    return repr(v)


def build(case, c, good):
    """Files to lay in the folder.  Returns (list of (path, data|tag, mtime)),
    usable = [(path, arrays)] newest first, denied."""
    now = 1709286000
    out, usable, denied = [], [], []
    used = set()
    fr = oracle.due(c, c['every'])
    maxp = oracle.pos_rows(c)
    for j, it in enumerate(case['items']):
        t = now - 60 * it['age']
        ts = time.strftime('%y%m%d%H%M', time.gmtime(t))
        while ts in used:
            t -= 60
            ts = time.strftime('%y%m%d%H%M', time.gmtime(t))
        used.add(ts)
        ident = dict(setup=c['setup'], input=c['input'], frames=c['frames'], dt=c['dt'])
        if it['kind'] == 'foreign':
            ident[it['differs']] = it['value']
        # content: this run's rows up to some point, with a mark of its own
        p = max(1, min(maxp, 1 + int(it['prog'] * maxp)))
        f = oracle.restart_frame(c, p)
        d = {}
        for k in KEYS:
            n = p if k in POS else oracle.frc_rows(c, min(f, c['frames'] - 1))
            d[k] = np.array(good[k][:n])
        if p >= 2 or f > 0:
            d['centres'] = d['centres'].astype(float)
            d['centres'][0] += (j + 1) * 0.0009765625
        if len(d['Fa']) >= 2:
            d['Fa'] = d['Fa'].astype(float)
            d['Fa'][0] += (j + 1) * 0.0009765625
        if it['kind'] == 'odd':
            name = it['name'] % dict(ts=ts, s=c['setup'], i=c['input'], n=c['frames'],
                                     t=tname(c['dt'])) if '%' in it['name'] else it['name']
            data = {'usable': config.npz(d), 'garbage': b'PK\3\4 this is not a backup',
                    'empty': b''}[it['body']]
            if 'output/' + name in [x[0] for x in out]:
                continue
            out.append(('output/' + name, data, t))
            continue
        name = 'output/%s-s%d-i%d-%dfr-t%s-M%d%s_TEMP.npz' % (
            ts, ident['setup'], ident['input'], ident['frames'], tname(ident['dt']), it['M'],
            it['suffix'])
        if it['kind'] == 'foreign':
            out.append((name, config.npz(d), t))
            continue
        if it['kind'] == 'usable':
            out.append((name, config.npz(d), t))
            usable.append((name, d, t))
            continue
        data = damage(it, d, c)
        if it['how'] == 'denied':
            denied.append(name)
            data = config.npz(d)
        out.append((name, data, t))
        if isinstance(data, bytes) and it['how'] in ('flip', 'tail', 'zeros', 'cut'):
            e = monitors.load_npz(data)
            if e is not None and name not in denied:
                usable.append((name, e, t))          # the flipped bit did no harm
    usable.sort(key=lambda x: x[0], reverse=True)
    return out, usable, denied


def damage(it, d, c):
    how = it['how']
    whole = config.npz(d)
    a = it['arg']
    if how == 'cut':
        return whole[:int(len(whole) * a * .999)]
    if how == 'empty':
        return b''
    if how == 'garbage':
        return random.Random(repr(a)).randbytes(int(1 + 5000 * a))
    if how == 'zeros':
        k = int(len(whole) * a)
        return whole[:k] + b'\0' * (len(whole) - k)
    if how == 'tail':
        return whole + random.Random(repr(a)).randbytes(int(1 + 300 * a))
    if how == 'flip':
        b = bytearray(whole)
        b[int(a * (len(b) - 1))] ^= 1 << int(a * 1000) % 8
        return bytes(b)
    if how == 'lacks':
        return config.npz({k: v for k, v in d.items() if k != it['key']})
    if how == 'particles':
        e = dict(d)
        ns, nd = config.num_particles(c)
        if a < .5:
            e['centres'] = np.concatenate([e['centres'], e['centres'][:, :1] + 50], 1)
            e['sphere_rotations'] = np.concatenate(
                [e['sphere_rotations'], e['sphere_rotations'][:, :1] + 50], 1) \
                if ns else np.zeros((len(e['centres']), 1, 2, 3))
        elif ns + nd > 1:
            e['centres'] = e['centres'][:, 1:]
            if ns:
                e['sphere_rotations'] = e['sphere_rotations'][:, 1:]
            else:
                e['deltax'] = e['deltax'][:, 1:]
        else:
            e['centres'] = np.concatenate([e['centres']] * 2, 1)
        return config.npz(e)
    if how == 'swapkind':
        # same total, one sphere more and one dumbbell fewer (or the reverse)
        e = dict(d)
        ns, nd = config.num_particles(c)
        n = len(e['centres'])
        if nd:
            e['deltax'] = e['deltax'][:, 1:]
            e['sphere_rotations'] = np.zeros((n, ns + 1, 2, 3))
        else:
            e['deltax'] = np.ones((n, 1, 3))
            e['sphere_rotations'] = e['sphere_rotations'][:, 1:]
        return config.npz(e)
    if how == 'norows':
        return config.npz({k: v[:0] for k, v in d.items()})
    if how == 'pickle':
        e = dict(d)
        e[it['key']] = np.array([{'a': 1}, None], dtype=object)
        return config.npz(e)
    if how == 'text':
        return b'Do not delete, these are the results for the paper\n' * int(1 + 30 * a)
    if how == 'notzip-array':
        import io
        b = io.BytesIO()
        np.save(b, d['centres'])
        return b.getvalue()
    return how                                     # dir, link, loop; denied


def lay(w, c, out):
    w.reset(config.files_for(c))
    for p, data, t in out:
        if isinstance(data, bytes):
            w.put(p, data, t)
        else:
            w.make(p, data)
    w.commit()


def run(case, ctx):
    c = case['config']
    res = ctx.case
    ref = oracle.clean(ctx, c)
    if ref is None:
        return
    rec0, good, name = ref
    out, usable, denied = build(case, c, good)
    code = config.code()
    if len(out) > len(usable) or len(usable) > 1:
        res.nontrivial = True
    w = ctx.world
    exact = c['scheme'] != 'ab2' and c['minv'] == 1

    def alone(u):
        """Results of the run continued from usable backup u alone."""
        if u is None:
            return good
        lay(w, c, [(u[0], config.npz(u[1]), u[2])])
        r = ctx.run(config.spec_for(c), code, 'continued from %s alone' % u[0])
        fs = w.files()
        rs = config.results_in(fs)
        if not oracle.completed(r) or len(rs) != 1:
            res.bad('usable-rejected', 'a run with one usable backup ended with %s %s: %s' % (
                r['status'], r['code'], oracle.tail(r)))
            return None
        d = monitors.load_npz(fs[rs[0]])
        if d is None:
            res.bad('unreadable', 'results are unreadable')
            return None
        rows = len(u[1]['centres'])
        if (rows >= 2 or oracle.restart_frame(c, rows) > 0) and not oracle.same(
                np.asarray(d['centres'])[0], np.asarray(u[1]['centres'])[0]):
            res.bad('usable-ignored', 'the usable backup %s was not continued' % u[0])
            return None
        return d
    want = alone(usable[0] if usable else None)
    if want is None:
        return
    lay(w, c, out)
    before = w.files()
    plan = [case['read']] if case['read'] else []
    spec = dict(plan=plan, deny=denied, listing=case['listing'],
                rngseed=case['seed'], clock={'start': 1709286000.0 + 300})
    if case['stop'] and exact and not plan:
        s = case['stop'] = make.place(case['stop'], oracle.counts_of(rec0), .7)
        rec = ctx.run(config.spec_for(c, **dict(spec, plan=[s])), code, 'stopped among the leftovers')
        spec['clock'] = {'start': 1709286000.0 + 900}
        if not oracle.completed(rec) and any(p not in before for p in config.results_in(w.files())):
            # stopped after saving: a repetition would be another run, which may continue the next leftover
            lay(w, c, out)
            before = w.files()
    else:
        case['stop'] = None
        rec = None
    if rec is None or not oracle.completed(rec):
        rec = ctx.run(config.spec_for(c, **spec), code, 'run among %d leftover files' % len(out))
    names = [p for p, _, _ in out]
    if not oracle.completed(rec):
        res.bad('stopped', 'with the leftover files %s the run ended with %s %s: %s' % (
            names, rec['status'], rec['code'], oracle.tail(rec)))
        return
    files = w.files()
    results = config.results_in(files)
    if not results:
        res.bad('no-results', 'no results file with leftovers %s' % names)
        return
    got = [(p, monitors.load_npz(files[p])) for p in results]
    if any(d is None for _, d in got):
        res.bad('unreadable', 'unreadable results with leftovers %s' % names)
        return
    d = got[-1][1]
    failed_read = set()
    for f in rec['fired']:
        if f[0].startswith('errno'):
            failed_read.add(rec['details'][f[2]][0])
    e = oracle.diff(d, want)
    accepted = usable[0][0] if usable else None
    if e and failed_read:
        # a backup that could not be read counts as unusable
        left = [u for u in usable if u[0] not in failed_read]
        keep = dict(files)
        want2 = alone(left[0] if left else None)
        if want2 is None:
            return
        e = oracle.diff(d, want2)
        files = keep
        accepted = left[0][0] if left else None
    if e:
        res.bad('contaminated', 'with leftovers %s the results are not those of %s: %s' % (
            names, 'a run continued from %s' % accepted if accepted else 'a run from the beginning', e))
        return
    mine = {accepted}
    if failed_read:
        mine |= {u[0] for u in usable[:1]} | {
            u[0] for u in [u for u in usable if u[0] not in failed_read][:1]}
    for p, data in before.items():
        if p in mine:
            continue
        if files.get(p, b'gone') != data:
            res.bad('touched', 'file %s, which is not this run\'s, was %s' % (
                p, 'changed' if p in files else 'deleted'))
            return
    res.extra['classes'] = ['usable-%d' % min(3, len(usable))] + \
        [it.get('how') or it['kind'] for it in case['items']]


def smaller(case):
    for it in make.smaller_list(case['items']):
        if it:
            yield dict(case, items=it)
    for k in ('read', 'stop'):
        if case[k]:
            yield dict(case, **{k: None})
    if case['listing'] != 'sorted':
        yield dict(case, listing='sorted')
    for c in make.smaller_config(case['config']):
        if c['dt'] == case['config']['dt'] and c['frames'] == case['config']['frames']:
            yield dict(case, config=c)
