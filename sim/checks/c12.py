"""C12: rebuilding the resistance tables after any failed attempt gives clean tables."""
import io
import json
import math
import os
import sys
import types
import zlib

import numpy as np

from .. import make, oracle, proc, solver

PROP = 'C12'
LEVEL = 'exploration'
CASES = {'quick': 320, 'thorough': 3200}
RULE = ('case = lists of separations and size ratios (any order, near and mid lists overlapping or not) x what is in '
        'the folder already x failed attempts (step, stop or failing call or failing solver, other inputs) before '
        'the final pass; non-trivial = a fault fired before the final pass, or the lists have several entries')
NOTE = ('The solver is a stand-in that replays recorded output of the real one; the near-field formulae are a '
        'stand-in except in the first cases, which evaluate the real ones.')

COMPONENTS = ['the four scripts of the documented steps and everything they import, executed unmodified from the '
              'working tree (numba.njit functions interpreted: NUMBA_DISABLE_JIT=1)',
              'the near-field formulae in five of the cases', 'numpy', 'file contents and names: real files in a '
              'scratch folder']
STAND_INS = ['two-sphere Fortran solver: replays recorded output of the real one, or fails as planned',
             'near-field formulae (all other cases): one simple function per name',
             'process death, errors and power loss of the disk (journal model)', 'clock']

STEPS = ['generate_scalars_midfield.py', 'generate_scalars_nearfield.py', 'combine_scalars.py',
         'subtract_R2Binfinity_from_scalars.py']
WRITES = ['scalars_general_resistance_midfield', 'scalars_general_resistance_nearfield',
          'scalars_general_resistance', 'scalars_general_resistance_d']
NAMES = [['X11A', 'X12A'], ['Y11A', 'Y12A'], ['Y11B', 'Y12B'], ['X11C', 'X12C'], ['Y11C', 'Y12C'],
         ['X11G', 'X12G'], ['Y11G', 'Y12G'], ['Y11H', 'Y12H'], ['X11M', 'X12M'], ['Y11M', 'Y12M'],
         ['Z11M', 'Z12M']]
D = 'find_resistance_scalars/'
LAMS = [1.0, 0.1, 0.01, 0.5, 0.25, 0.9, 0.41]
MID = [2.2, 2.4, 2.7, 3.0, 3.6, 4.5]
NEAR = [2.00001, 2.00002, 2.0001, 2.0005, 2.001, 2.005, 2.01, 2.02, 2.013, 2.1, 2.3, 2.5]
# families of formulae that share their coefficients, cheap ones first
REAL = [['X11A', 'X12A', 'X11G', 'X12G'], ['X11M', 'X12M', 'X11C', 'X12C'],
        ['Y11A', 'Y12A', 'Y11B', 'Y12B', 'Y11G', 'Y12G'], ['Y11C', 'Y12C'], ['Y11H', 'Y12H']]
SLOW = [['Y11M', 'Y12M'], ['Z11M'], ['Z12M']]
HOWS = sorted(solver.FAILURES)


def inputs(rng):
    ns = rng.choice([1, 1, 2, 3])
    nm = rng.choice([1, 1, 2, 3])
    nl = rng.choice([1, 1, 1, 2, 2, 3])
    near, mid, lam = rng.sample(NEAR, ns), rng.sample(MID, nm), rng.sample(LAMS, nl)
    if rng.random() < .55:
        near = [s for s in near if s < 2.2] or [2.001]
        near.sort()
        mid.sort()
    if rng.random() < .6:
        lam.sort()
    return dict(near=near, mid=mid, lam=lam, fmt=rng.choice(['%r', '%r', '% .8e', '%.6f']),
                end=rng.choice(['', '\n']))


def gen(rng, i, tier):
    fam = REAL if tier == 'quick' else REAL + SLOW
    if 4 <= i < 4 + len(fam):
        pts = [[rng.choice([0, 3, 6, 9]), rng.randrange(5)] for _ in range(6)]
        names = [n for n in fam[i - 4] for _ in pts]
        order = [[n, rng.randrange(len(pts))] for n in names]
        return dict(kind='formulae', names=fam[i - 4], points=pts, order=order)
    inp = inputs(rng)
    attempts = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        k = rng.choice([0, 0, 1, 2, 2, 3, 3])
        a = dict(step=k, inputs=None if rng.random() < .75 else inputs(rng))
        r = rng.random()
        if k == 0 and r < .45:
            a['fault'] = dict(do='solver', cls='solver', pos=round(rng.random(), 4), how=rng.choice(HOWS))
            a['all'] = rng.random() < .25
        elif r < .7:
            a['fault'] = make.stop(rng, kinds=('kill', 'kill', 'int', 'torn', 'torn', 'power', 'torn_power'),
                                   classes=('any', 'file', 'change', 'change', 'write', 'out'))
        else:
            a['fault'] = dict(do='errno', cls=rng.choice(['write', 'write', 'open+', 'file', 'open', 'read']),
                              pos=round(rng.random(), 4), errno=rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT']),
                              part=rng.random() < .5, frac=rng.choice([.1, .5, .9]), sticky=rng.random() < .3)
        a['on'] = rng.random() < .3            # carry on with the later steps regardless
        attempts.append(a)
    return dict(kind='pass', inputs=inp, attempts=attempts, old=rng.choice(['empty', 'empty', 'published', 'other']),
                other=inputs(rng), alone=rng.random() < .5, pick=rng.randrange(1 << 20), seed=rng.randrange(1 << 30))


def formula(name):
    h = (zlib.crc32(name.encode()) % 997) / 997

    def f(xi, lam, *a, **k):
        return .2 + h + (.3 + h) / (1 + lam) + h * np.log(xi) / (3 + lam) + xi * (1 - h)
    f.__name__ = name
    return f


def near_stand_in(rt):
    m = types.ModuleType('functions_nearfield')
    for pair in NAMES:
        for n in pair:
            setattr(m, n, formula(n))
    m.__getattr__ = formula
    sys.modules['functions_nearfield'] = m


def published():
    with open(os.path.join(solver.HERE, 'data', 'tables.json')) as f:
        d = json.load(f)
    return np.array(d['s']), np.array(d['lam']), np.array(d['table']), np.array(d['table_d'])


def texts(inp):
    def t(v):
        return ('\n'.join(inp['fmt'] % x for x in v) + inp['end']).encode()
    return {D + 'values_of_lambda.txt': t(inp['lam']), D + 'values_of_s_dash_nearfield.txt': t(inp['near']),
            D + 'values_of_s_dash_midfield.txt': t(inp['mid'])}


def spec(k, **kw):
    s = dict(script=os.path.join(proc.FRS, STEPS[k]), cwd=D, solver=True, pre=near_stand_in,
             redirect=[(proc.FRS, '/' + D.rstrip('/'))], cpu=120)
    s.update(kw)
    return s


def code(k):
    return proc.code_for(os.path.join(proc.FRS, STEPS[k]))


def fresh(w, files):
    w.reset(files, dirs=('find_resistance_scalars', 'find_resistance_scalars/helen_fortran', 'tmp'))
    os.symlink(proc.SD, os.path.join(w.root, 'stokesian_dynamics'))


def with_reciprocals(lams):
    r = list(lams)
    for x in lams:
        if not any(abs(1 / x - y) < 1e-12 for y in r):
            r.append(1 / x)
    return sorted(r)


def npy(data):
    try:
        return np.asarray(np.load(io.BytesIO(data), allow_pickle=False), float)
    except Exception:
        return None


def close(a, b, tol=1e-9):
    return np.allclose(a, b, rtol=tol, atol=tol)


def rows_at_end(data, n):
    """The last n rows of a table in words and numbers, or None."""
    lines = data.decode('utf-8', 'replace').rstrip('\n').split('\n')[-n:]
    try:
        a = np.array([[float(x) for x in ln.split()] for ln in lines])
    except ValueError:
        return None
    return a if a.shape == (n, 14) else None


def tables(files, inp):
    """(tables by name, what is wrong with them)"""
    t = {}
    lam = with_reciprocals(inp['lam'])
    ss = [list(inp['mid']), list(inp['near']), sorted(inp['near'] + inp['mid']), sorted(inp['near'] + inp['mid'])]
    for n, s in zip(WRITES, ss):
        p = D + n + '.npy'
        a = npy(files[p]) if files.get(p) else None
        if a is None:
            return None, 'there is no readable %s.npy' % n
        if a.shape != (11, 2, len(s), len(lam)):
            return None, '%s.npy has shape %s for %d separations and %d size ratios' % (n, a.shape, len(s), len(lam))
        if not np.all(np.isfinite(a)):
            return None, '%s.npy contains undefined numbers' % n
        t[n] = a
        p = D + n + '.txt'
        rows = rows_at_end(files.get(p) or b'', 2 * len(s) * len(lam))
        if rows is None:
            return None, '%s.txt does not end with the whole table' % n
        seen = set()
        for r in rows:
            i = [k for k, x in enumerate(s) if abs(x - r[0]) < 1e-6]
            j = [k for k, x in enumerate(lam) if abs(x - r[1]) < 1e-6 * x]
            g = int(r[2])
            if len(i) != 1 or len(j) != 1 or g not in (0, 1) or (i[0], j[0], g) in seen:
                return None, '%s.txt lists an unexpected or repeated pair: %s' % (n, r[:3].tolist())
            seen.add((i[0], j[0], g))
            if not close(r[3:], a[:, g, i[0], j[0]], 1e-7):
                return None, '%s.txt and .npy differ for separation %g, size ratio %g' % (n, r[0], r[1])
    p = D + 'values_of_s_dash.txt'
    try:
        v = np.loadtxt(io.BytesIO(files.get(p) or b''), ndmin=1)
    except ValueError:
        v = np.array([])
    if v.shape != (len(ss[2]),) or not close(v, ss[2], 1e-7):
        return None, 'values_of_s_dash.txt lists %s instead of %s' % (v.tolist(), ss[2])
    t['list'] = v
    return t, None


def paired(t, inp):
    """Do the tables hold each pair's own scalars?  As far as known."""
    lam = with_reciprocals(inp['lam'])
    near, mid = inp['near'], inp['mid']
    all_s = sorted(near + mid)
    ps, pl, pt, pd = published()
    for i, s in enumerate(near):
        for j, x in enumerate(lam):
            want = np.array([[formula(n)(s - 2, x) for n in pair] for pair in NAMES])
            if not close(t[WRITES[1]][:, :, i, j], want, 1e-7):
                return 'the near-field table does not hold the scalars of separation %r, size ratio %g' % (s, x)
    for i, s in enumerate(all_s):
        own = t[WRITES[1]][:, :, near.index(s)] if s in near else t[WRITES[0]][:, :, mid.index(s)]
        if not close(t[WRITES[2]][:, :, i], own):
            return 'the combined table does not hold the scalars of separation %r' % s
    for i, s in enumerate(all_s):
        for j, x in enumerate(lam):
            a = np.argmin(np.abs(ps - s))
            b = np.argmin(np.abs(pl - x))
            if abs(ps[a] - s) < 1e-9 and abs(pl[b] - x) < 1e-9 * x:
                if s in mid and not close(t[WRITES[2]][:, :, i, j], pt[:, :, a, b], 1e-5):
                    return 'the mid-field scalars of separation %r, size ratio %g are not the published ones' % (s, x)
                if not close((t[WRITES[2]] - t[WRITES[3]])[:, :, i, j], (pt - pd)[:, :, a, b], 1e-5):
                    return 'what is subtracted for separation %r, size ratio %g is not as published' % (s, x)
    return None


def complete(ctx, label, **kw):
    """All steps; True if each of them ended well."""
    for k in range(len(STEPS)):
        rec = ctx.run(spec(k, **kw), code(k), '%s, step %d' % (label, k + 1))
        if [x for x in rec['notes'] if x[0] == 'solver-unknown']:
            ctx.case.bad('asked', '%s: the solver was asked for something that is not in the lists: %s' % (
                label, [x for x in rec['notes'] if x[0] == 'solver-unknown'][0][1]))
            return False
        if not oracle.completed(rec):
            ctx.case.bad('ends', '%s: step %d ended with %s %s: %s' % (
                label, k + 1, rec['status'], rec['code'], oracle.tail(rec)))
            return False
        yield_counts[k] = oracle.counts_of(rec)
    return True


yield_counts = {}


def run(case, ctx):
    if case['kind'] == 'formulae':
        return formulae(case, ctx)
    res = ctx.case
    w = ctx.world
    inp = case['inputs']
    several = max(len(inp['near']), len(inp['mid']), len(inp['lam'])) > 1
    ctx.signature(repr(inp), repr(case['old']))

    def whole(label, inp):
        if not complete(ctx, label):
            return None
        t, e = tables(w.files(), inp)
        e = e or paired(t, inp)
        if e:
            res.bad('tables', '%s: %s' % (label, e))
            return None
        return t
    fresh(w, texts(inp))
    good = whole('undisturbed pass', inp)
    if good is None:
        return
    counts = dict(yield_counts)
    clean_files = w.files()
    if several and case['alone']:
        # the same pair by itself gives the same scalars
        q = case['pick']
        one = dict(inp, near=[inp['near'][q % len(inp['near'])]], mid=[inp['mid'][q // 3 % len(inp['mid'])]],
                   lam=[inp['lam'][q // 9 % len(inp['lam'])]])
        fresh(w, texts(one))
        alone = whole('pass for a single pair', one)
        if alone is None:
            return
        lam, lam1 = with_reciprocals(inp['lam']), with_reciprocals(one['lam'])
        ss, s1 = [inp['mid'], inp['near'], sorted(inp['near'] + inp['mid'])], \
            [one['mid'], one['near'], sorted(one['near'] + one['mid'])]
        for n, a, b in zip(WRITES, ss + ss[2:], s1 + s1[2:]):
            for i, s in enumerate(b):
                for j, x in enumerate(lam1):
                    y = int(np.argmin(np.abs(np.array(lam) - x)))
                    if not close(good[n][:, :, a.index(s), y], alone[n][:, :, i, j], 1e-8):
                        res.bad('pair', '%s.npy: the scalars of separation %r, size ratio %g differ from those that '
                                'a table of this pair alone holds' % (n, s, x))
                        return
    # what is in the folder before
    old = {}
    if case['old'] == 'published':
        _, _, pt, pd = published()
        for n, a in zip(WRITES, (pt[:, :, 11:], pt[:, :, :11], pt, pd)):
            b = io.BytesIO()
            np.save(b, a)
            old[D + n + '.npy'] = b.getvalue()
            old[D + n + '.txt'] = b'Nondimensionalised resistance scalars, generated earlier\n    s\'  lambda\n 1 2 3\n'
        old[D + 'values_of_s_dash.txt'] = b'2.1\n2.2\n'
    elif case['old'] == 'other':
        fresh(w, texts(case['other']))
        if whole('pass for other lists', case['other']) is None:
            return
        old = {p: d for p, d in w.files().items() if 'values_of_lambda' not in p and 'field.txt' not in p}
        old.update({p: d for p, d in w.files().items() if p.startswith(D + 'scalars')})
    if not case['attempts'] and case['old'] == 'empty':
        res.nontrivial = several
        res.extra['classes'] = ['undisturbed']
        return
    fresh(w, dict(old, **texts(inp)))
    for j, a in enumerate(case['attempts']):
        for p, d in texts(a['inputs'] or inp).items():
            w.put(p, d)
        w.commit()
        k = a['step']
        a['fault'] = make.place(a['fault'], counts[k])
        plan = [a['fault']]
        if a.get('all'):
            plan = [dict(a['fault'], nth=n) for n in range(14 * 9 * 3)]
        for s in range(len(STEPS) if a['on'] else k + 1):
            before = w.files()
            rec = ctx.run(spec(s, plan=plan if s == k else [], clock=dict(start=1709286000.0 + 5000 * j)), code(s),
                          'attempt %d, step %d' % (j + 1, s + 1))
            if s == k and any(f[0] == 'solver' for f in rec['fired']):
                after = w.files()
                now = {p for p in set(before) | set(after) if p.startswith(D + 'scalars')
                       and before.get(p) != after.get(p)}
                if oracle.completed(rec) and (a['inputs'] is None):
                    # a step may try again, but only with the right outcome
                    t = npy(after.get(D + WRITES[0] + '.npy') or b'')
                    if t is not None and t.shape == good[WRITES[0]].shape and close(t, good[WRITES[0]]):
                        now = set()
                    elif not now:
                        res.bad('solver', 'the solver failed (%s), but the step reported success' % a['fault']['how'])
                        return
                if now:
                    res.bad('solver', 'the solver failed (%s), but the step wrote %s' % (
                        a['fault']['how'], sorted(now)))
                    return
            if rec['status'] == 'power':
                rng = __import__('random').Random('%s %s' % (case['seed'], j))
                w.power_cut(lambda what, options: rng.choice(options))
                break
            if not oracle.completed(rec) and not a['on']:
                break
    for p, d in texts(inp).items():
        w.put(p, d)
    w.commit()
    t = whole('pass after failed attempts', inp)
    if t is None:
        return
    for n in WRITES + ['list']:
        if not close(t[n], good[n]):
            res.bad('differs', 'after failed attempts, %s differs from that of an undisturbed pass by up to %.3g' % (
                n, np.abs(t[n] - good[n]).max()))
            return
    res.nontrivial = bool(res.fired) or several
    res.extra['classes'] = ['%d attempts' % len(case['attempts']), case['old']] + [
        'step %d' % (a['step'] + 1) for a in case['attempts']]


def formulae(case, ctx):
    """The real near-field formulae, in any order, give the published scalars."""
    res = ctx.case
    w = ctx.world
    fresh(w, {})
    ps, pl, pt, _ = published()

    def drive(rt):
        import functions_nearfield as f
        out = []
        for n, k in case['order']:
            i, j = case['points'][k]
            out.append(float(getattr(f, n)(float(ps[i]) - 2, float(pl[j]))))
        rt.notes.append(('values', out))
    rec = ctx.run(dict(script=os.path.join(proc.FRS, STEPS[1]), cwd=D, cpu=600), drive, 'near-field formulae')
    got = [x for x in rec['notes'] if x[0] == 'values']
    if not got:
        res.bad('formulae', 'the near-field formulae ended with %s %s: %s' % (
            rec['status'], rec['code'], oracle.tail(rec)))
        return
    ctx.signature('formulae', repr(case['names']))
    res.nontrivial = True
    res.extra['classes'] = ['formulae']
    where = {n: (g, k) for g, pair in enumerate(NAMES) for k, n in enumerate(pair)}
    for (n, k), v in zip(case['order'], got[0][1]):
        i, j = case['points'][k]
        g, gam = where[n]
        want = pt[g, gam, i, j]
        if not (math.isfinite(v) and abs(v - want) <= 1e-6 * max(1, abs(want))):
            res.bad('formulae', '%s at separation %g, size ratio %g is %.9g, published %.9g' % (
                n, ps[i], pl[j], v, want))
            return


def smaller(case):
    if case['kind'] == 'formulae':
        if len(case['order']) > 1:
            yield dict(case, order=case['order'][:len(case['order']) // 2])
            yield dict(case, order=case['order'][len(case['order']) // 2:])
        return
    for a in make.smaller_list(case['attempts']):
        yield dict(case, attempts=a)
    if case['old'] != 'empty':
        yield dict(case, old='empty')
    if case['alone']:
        yield dict(case, alone=False)
    for key in ('near', 'mid', 'lam'):
        v = case['inputs'][key]
        if len(v) > 1:
            for s in make.smaller_list(v):
                yield dict(case, inputs=dict(case['inputs'], **{key: s}))
    for i, a in enumerate(case['attempts']):
        rest = case['attempts'][:i], case['attempts'][i + 1:]
        for kw in ([dict(inputs=None)] if a['inputs'] else []) + ([dict(on=False)] if a['on'] else []) + (
                [dict(all=False)] if a.get('all') else []):
            yield dict(case, attempts=rest[0] + [dict(a, **kw)] + rest[1])
        n = a['fault'].get('nth', 0)
        for m in (0, n // 2, n - 1):
            if 0 <= m < n:
                yield dict(case, attempts=rest[0] + [dict(a, fault=dict(a['fault'], nth=m))] + rest[1])
