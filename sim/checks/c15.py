"""C15: a run that cannot start or cannot go on fails cleanly."""
import os
import random

import numpy as np

from .. import config, make, monitors, oracle, proc

PROP = 'C15'
LEVEL = 'fault_enumeration'
CASES = {'quick': 1500, 'thorough': 15000}
RULE = ('case = an output folder (often with a backup of the same run, another run\'s backup and earlier results) x one '
        'obstacle: a command-line value, setup, input, form or scheme that is not offered, particles that do not suit the form, '
        'an input that does not suit the form, a starting file or resistance table that is missing, damaged, '
        'forbidden or fails at the n-th read, no output folder, no answer on standard input, memory running out at the '
        'n-th event; then the same command without the obstacle; non-trivial = the obstacle was met')
NOTE = 'Covers the obstacles in the evidence; a table with wrong but readable numbers is not an obstacle.'

TABLES = os.path.join('stokesian_dynamics', 'resistance_scalars')
TEXTS = ('values_of_s_dash.txt', 'values_of_lambda.txt')
NUMBERS = ('scalars_general_resistance.npy', 'scalars_general_resistance_d.npy')

BAD = {'setup': ['x', '1.5', '', 'two', '1,2', '0x8', '8a', '--'],
       'input': ['y', '7.0', '', 'one', '1;', 'None', '-'],
       'dt': ['fast', '0,1', '', '1e-', '0.1s', '1/10', '--'],
       'frames': ['ten', '3.0', '1e2', '', '5 6', '4f']}
LATE = ('exc',)


def gen(rng, i, tier):
    kind = rng.choice(['args', 'args', 'number', 'number', 'form', 'scheme', 'mismatch', 'mismatch', 'unsuited',
                       'start', 'start', 'start', 'start', 'table', 'table', 'table', 'table', 'folder', 'stdin', 'exc', 'exc', 'exc'])
    c = make.run_config(rng, frames=rng.randint(2, 7), periodic=.02, minv=False,
                        schemes=('euler', 'euler', 'rk4') if kind in LATE else ('euler', 'euler', 'rk4', 'ab2'))
    c['desc'] = None
    c['temp'] = rng.choice([1, 2, 2, 3])
    o = dict(kind=kind)
    if kind == 'args':
        o['which'] = rng.choice(sorted(BAD))
        o['text'] = rng.choice(BAD[o['which']])
    elif kind == 'number':
        o['which'] = rng.choice(['setup', 'input'])
        o['value'] = rng.choice([0, 99, 1000, 12345])
    elif kind == 'form':
        o['value'] = rng.choice(['xyz', 'ftx', 'none', 'general', '?'])
    elif kind == 'scheme':
        o['value'] = rng.choice(['rk3', 'verlet', '', 'leapfrog', 'ab4'])
    elif kind == 'mismatch':
        ns = rng.choice([0, 1])
        o['form'] = rng.choice(['fte', 'fte', 'ufte', 'ufteu'] if not ns else
                               ['duf', 'RPY_dumbbells_only', 'stokes_drag_dumbbells_only'])
        c.update(setup=8, particles=make.particles(rng, ns * rng.choice([1, 2]), rng.choice([1, 2]) if not ns
                                                   else rng.choice([0, 1])),
                 input=rng.choice([3, 7]), form='fts' if not ns else 'fte')
    elif kind == 'unsuited':
        c.update(setup=8, particles=make.particles(rng, rng.choice([1, 2]), rng.choice([0, 1])))
        c['input'], o['form'] = rng.choice([(1, 'ufteu'), (3, 'ufte'), (7, 'ufte'), (7, 'ufteu'), (4, 'ufte')])
        c['form'] = 'fte'
    elif kind == 'start':
        while c['setup'] != 8:
            c.update(make.physics(rng, fixed=False))
            c.pop('periodic', None)
        o['how'] = rng.choice(['missing', 'empty', 'cut', 'garbage', 'no-centres', 'no-deltax', 'flip', 'dir',
                               'denied', 'EIO', 'EIO', 'ESTALE'])
        o['frac'] = round(rng.random() * .98, 3)
        o['nth'] = rng.randint(0, 3)
    elif kind == 'table':
        o['file'] = rng.choice(TEXTS + NUMBERS + NUMBERS[:1])
        o['how'] = rng.choice(['missing', 'empty', 'cut', 'garbage', 'EIO', 'EIO', 'denied'])
        if o['file'].endswith('.txt') and o['how'] == 'cut':
            o['how'] = 'binary'
        o['frac'] = round(rng.random() * .98, 3)
        o['nth'] = rng.randint(0, 3)
    elif kind == 'folder':
        c.update(setup=rng.choice([2, 4]), particles=None, input=rng.choice([1, 7]), form='fte', flat=False)
    elif kind == 'exc':
        o['cls'] = rng.choice(['any', 'any', 'clock', 'out', 'backup', 'final', 'open+', 'write'])
        o['pos'] = round(rng.random(), 4)
    others = [k for k in ('backup', 'foreign', 'results', 'text') if rng.random() < .4]
    if kind == 'folder':
        others = []
    elif kind in ('form', 'unsuited') and 'backup' in others:
        others.remove('backup')         # it may leave nothing to compute
    return dict(config=c, obstacle=o, others=others, at=round(rng.random(), 4), seed=rng.randrange(1 << 30))


def damaged(data, o, rng):
    how = o['how']
    if how == 'empty':
        return b''
    if how == 'cut':
        return data[:int(len(data) * o['frac'])]
    if how == 'garbage':
        return bytes(rng.randrange(256) for _ in range(200))
    if how == 'binary':
        return b'\x93NUMPY' + bytes(rng.randrange(128, 256) for _ in range(60))
    return data


def hinder(case, ctx):
    """Put the obstacle in the way.  Returns (changes to the command, changes to the spec)."""
    c, o = case['config'], case['obstacle']
    w = ctx.world
    rng = random.Random(case['seed'] + 1)
    kind = o['kind']
    cfg, spec = dict(c), {}
    if kind == 'number':
        cfg[o['which']] = o['value']
    elif kind == 'form':
        cfg['form'] = o['value']
    elif kind == 'scheme':
        cfg['scheme'] = o['value']
    elif kind in ('mismatch', 'unsuited'):
        cfg['form'] = o['form']
    elif kind == 'args':
        spec['argv'] = [o['text'] if k == o['which'] else c[k] for k in ('setup', 'input', 'dt', 'frames', 'form')]
    elif kind == 'stdin':
        cfg['desc'] = ''
        spec['input'] = []
    elif kind == 'start':
        p = 'output/FILENAME.npz'
        data = w.files()[p]
        how = o['how']
        if how in ('missing', 'dir'):
            w.remove(p)
            if how == 'dir':
                w.make(p, 'dir')
        elif how.startswith('no-'):
            d = monitors.load_npz(data)
            d.pop(how[3:])
            w.put(p, config.npz(d))
        elif how == 'flip':
            # damage that the checksums of the archive show
            d = monitors.load_npz(data)
            import io
            b = io.BytesIO()
            np.savez(b, centres=d['centres'], deltax=d['deltax'])
            raw = bytearray(b.getvalue())
            k = raw.find(b'NUMPY') + 130
            raw[k] ^= 0x41
            w.put(p, bytes(raw))
        elif how == 'denied':
            spec['deny'] = [p]
        elif how in ('EIO', 'ESTALE'):
            spec['plan'] = [dict(do='errno', errno=how, cls='start', nth=o['nth'])]
        else:
            w.put(p, damaged(data, o, rng))
    elif kind == 'table':
        real = os.path.join(proc.REPO, TABLES, o['file'])
        p = 'tables/' + o['file']
        spec['redirect'] = [(os.path.join(proc.SD, 'output'), '/output'), (real, '/' + p)]
        how = o['how']
        if how != 'missing':
            with open(real, 'rb') as f:
                w.put(p, damaged(f.read(), o, rng))
        if how == 'denied':
            spec['deny'] = [p]
        elif how == 'EIO':
            spec['plan'] = [dict(do='errno', errno='EIO', cls='table', nth=o['nth'])]
    elif kind == 'folder':
        os.rmdir(os.path.join(w.root, 'output'))
    return cfg, spec


def clear(case, ctx, data):
    """Take the obstacle away again."""
    o = case['obstacle']
    w = ctx.world
    if o['kind'] == 'start':
        p = os.path.join(w.root, 'output/FILENAME.npz')
        if os.path.isdir(p):
            os.rmdir(p)
        w.put('output/FILENAME.npz', data)
    elif o['kind'] == 'folder':
        os.makedirs(os.path.join(w.root, 'output'), exist_ok=True)


def run(case, ctx):
    c, o = case['config'], case['obstacle']
    res = ctx.case
    w = ctx.world
    ref = oracle.clean(ctx, c)
    if ref is None:
        return
    rec0, good, name = ref
    exact = c['scheme'] != 'ab2'
    code = config.code()
    w.reset(config.files_for(c))
    now = 1709286000.0
    if 'backup' in case['others'] and exact:
        n = int(case['at'] * rec0['n'])
        ctx.run(config.spec_for(c, plan=[dict(do='kill', at=n)], clock={'start': now}), code, 'earlier attempt')
        now += 7200
    own = set(w.files()) - {'output/FILENAME.npz'}
    if 'foreign' in case['others']:
        w.put('output/2401010000-s3-i3-%dfr-t0p7-M1_TEMP.npz' % (c['frames'] + 3), config.npz(good))
    if 'results' in case['others']:
        w.put('output/2401010000-s3-i3-9fr-t0p7-M1.npz', config.npz(good))
    if 'text' in case['others']:
        w.put('output/notes.txt', b'do not lose me')
    start = w.files().get('output/FILENAME.npz')
    w.commit()
    cfg, spec = hinder(case, ctx)
    if o['kind'] == 'exc':
        if 'nth' not in o:
            counts = oracle.counts_of(rec0)
            p = make.place(dict(do='exc', cls=o['cls'], pos=o['pos']), counts)
            o = case['obstacle'] = dict(o, nth=p['nth'])
        spec['plan'] = [dict(do='exc', cls=o['cls'], nth=o['nth'])]
    before = {p: d for p, d in w.files().items() if p.startswith('output/')}
    others = set(before) - own
    rec = ctx.run(config.spec_for(cfg, clock={'start': now}, monitors=[dict(kind='backups', arrays=True)], **spec),
                  code, 'hindered attempt')
    after = {p: d for p, d in w.files().items() if p.startswith('output/')}
    ctx.signature(o['kind'], o.get('how') or o.get('value') or o.get('which') or o.get('form') or o.get('cls'),
                  o.get('file'), o.get('nth'), sorted(case['others']))
    res.extra.setdefault('classes', []).append(' '.join(str(x) for x in (o['kind'], o.get('how') or o.get('which') or '') if x))
    if rec['status'] != 'exit':
        res.bad('stuck', 'with %s the run ended with %s' % (tell(o), rec['status']))
        return
    spared = o['kind'] in ('table', 'exc') or o.get('how') in ('EIO', 'ESTALE')
    if spared and oracle.completed(rec):
        # the obstacle was not in its way: then the results are the usual ones
        new = ([p for p in config.results_in(after) if p not in before]
               or [p for p in config.results_in(after) if p in own])
        d = monitors.load_npz(after[new[0]]) if len(new) == 1 else None
        e = 'there is no new readable results file' if d is None else oracle.diff(d, good)
        if e:
            res.bad('spoilt', 'with %s the run reports completion, but %s' % (tell(o), e))
        elif rec['fired']:
            res.nontrivial = True
        return
    res.nontrivial = True
    if rec['code'] == 0:
        res.bad('no-failure', 'with %s the run ends with a success status%s' %
                (tell(o), ' and reports completion' if oracle.says_complete(rec) else ''))
        return
    if oracle.says_complete(rec) and o['kind'] != 'exc':
        res.bad('reported', 'with %s the run reports completion' % tell(o))
        return
    if not rec['err'].strip() and not rec['out'].strip():
        res.bad('silent', 'with %s the run ends without a word' % tell(o))
        return
    if o['kind'] == 'exc':
        for p in sorted(others):
            if after.get(p) != before[p]:
                res.bad('touched', 'with %s the run %s %s' % (tell(o), 'changed' if p in after else 'removed', p))
                return
        for p in config.results_in(after):
            if p not in before:
                d = monitors.load_npz(after[p])
                e = 'not a complete archive' if d is None else oracle.diff(d, good)
                if e:
                    res.bad('part-left', 'with %s the run left a results file which %s' % (tell(o), e))
                    return
        made = [x for x in rec['notes'] if x[0] == 'backup']
        if made and not [p for p in config.results_in(after) if p not in before]:
            rows = max(len(monitors.load_npz(after[p])['centres']) if monitors.load_npz(after[p]) else -1
                       for p in config.backups_in(after) or [None]) if config.backups_in(after) else -1
            if rows < len(made[-1][3]['centres']):
                res.bad('backup-lost', 'with %s the backup with %d rows is gone' % (tell(o), len(made[-1][3]['centres'])))
                return
    elif o['kind'] != 'folder':
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p):
                res.bad('touched', 'with %s the run %s %s' % (tell(o), 'made' if p not in before else 'removed'
                                                              if p not in after else 'changed', p))
                return
    # the same command without the obstacle
    clear(case, ctx, start)
    had = set(config.results_in(w.files()))
    rec = ctx.run(config.spec_for(c, clock={'start': now + 7200}), code, 'repeated')
    files = w.files()
    # the earlier attempt may have saved its results just before it was stopped
    found = config.results_in(files)
    new = ([p for p in found if p not in had] or [p for p in found if p not in before]
           or [p for p in found if p in own])
    if not oracle.completed(rec) or not new:
        res.bad('not-repeatable', 'after an attempt with %s the command ends with %s %s: %s'
                % (tell(o), rec['status'], rec['code'], oracle.tail(rec)))
        return
    for p in new:
        e = oracle.diff(monitors.load_npz(files[p]), good)
        if e:
            res.bad('differs', 'after an attempt with %s the repeated run gives %s' % (tell(o), e))
            return


def tell(o):
    k = o['kind']
    if k == 'args':
        return 'the %s given as %r' % (o['which'], o['text'])
    if k == 'number':
        return 'the %s number %s' % (o['which'], o['value'])
    if k in ('form', 'scheme'):
        return 'the %s %r' % (k, o['value'])
    if k == 'mismatch':
        return 'particles that do not suit the form %s' % o['form']
    if k == 'unsuited':
        return 'an input that does not suit the form %s' % o['form']
    if k == 'start':
        return 'a starting file that is %s' % o['how']
    if k == 'table':
        return 'the table %s %s' % (o['file'], o['how'])
    if k == 'folder':
        return 'no output folder'
    if k == 'stdin':
        return 'no answer on standard input'
    return 'memory running out'


def smaller(case):
    for c in make.smaller_config(case['config']):
        if case['obstacle']['kind'] in ('mismatch', 'unsuited', 'start', 'folder') and c['setup'] != case['config']['setup']:
            continue
        yield dict(case, config=c)
    for x in make.smaller_list(case['others']):
        yield dict(case, others=x)
    o = case['obstacle']
    if o.get('nth'):
        yield dict(case, obstacle=dict(o, nth=o['nth'] // 2))
        yield dict(case, obstacle=dict(o, nth=o['nth'] - 1))
