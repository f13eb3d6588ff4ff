"""C14: videos of saved files."""
import os
import random
import sys
import time

import numpy as np

from .. import config, proc, seams

PROP = 'C14'
LEVEL = 'exploration'
CASES = {'quick': 190, 'thorough': 1500}
PRELOAD = ('matplotlib', 'matplotlib.pyplot', 'matplotlib.animation', 'mpl_toolkits.mplot3d',
           'matplotlib.backends.backend_agg', 'pylab')
RULE = ('case = files in the output folder (rows, particles, names, order of creation) x encoder behaviour '
        '(works, missing, refuses, dies after some frames, fails at the end) x stop or read error, then an '
        'undisturbed repetition and a video of a file with some rows changed; non-trivial = the encoder failed, '
        'the script was disturbed, or a changed file was compared')
COMPONENTS = ['make_video.py and the modules it imports, executed unmodified from the working tree',
              'numpy, zipfile, matplotlib (figures, 3D axes, FuncAnimation, FFMpegWriter, Agg rendering)',
              'saved files: real files in a scratch folder']
STAND_INS = ['the ffmpeg process and its pipe (accepts, refuses, dies, fails late, is not installed)',
             'process death, interrupts and read errors', 'clock, host name, random numbers']
SCRIPT = os.path.join(proc.SD, 'plotting', 'make_video.py')


def layout(rng, ns, nd, flat):
    """Particles whose pictures do not overlap (seen along y)."""
    cells = [(x, z) for x in (-6, -2, 2, 6) for z in (-6, -2, 2, 6)]
    if flat:
        cells = [(x, z) for x in (-2, 2) for z in (-2, 2)]
    cells = rng.sample(cells, ns + nd)
    rows = []
    for x, z in cells:
        rows.append([round(x + rng.uniform(-.8, .8), 3), round(rng.uniform(-1, 1), 3),
                     round(z + rng.uniform(-.8, .8), 3)])
    return rows


def row(rng, ns, nd, flat):
    c = layout(rng, ns, nd, flat)
    r = []
    for k in range(ns):
        a = rng.uniform(0, 6.28)
        r.append([[round(np.cos(a), 4), 0.0, round(np.sin(a), 4)],
                  [round(-np.sin(a), 4), 0.0, round(np.cos(a), 4)]])
    d = []
    for k in range(nd):
        a = rng.uniform(0, 6.28)
        d.append([round(.7 * np.cos(a), 4), 0.0, round(.7 * np.sin(a), 4)])
    f = [[round(rng.uniform(0, .5), 3) for _ in range(3)] for _ in range(ns)]
    g = [[round(rng.uniform(.5, 1), 3) for _ in range(3)] for _ in range(nd)]
    h = [[round(rng.choice([-.3, .3]) * x, 3) for x in y] for y in g]
    return dict(c=c, r=r, d=d, f=f, g=g, h=h)


def gen(rng, i, tier):
    setup = rng.choice([1, 2, 4, 1, 2, 4, -2])
    flat = rng.random() < .15
    inp = 2 if flat else rng.choice([1, 1, 3, 4, 7])
    if flat:
        ns, nd = rng.choice([(1, 0), (2, 0)])
    else:
        ns, nd = rng.choice([(1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (1, 2), (0, 1), (0, 2)])
    if ns and not flat and rng.random() < .1:
        inp = rng.choice([-1, -5])
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    rows = [row(rng, ns, nd, flat) for _ in range(n)]
    dt = rng.choice(['0.1', '0.25', '1.0', '0.001', '1e-05', '2.5e-06', '12.0'])
    name = '%s-s%d-i%d-%dfr-t%s-M%d%s' % (
        rng.choice(['2403021015', '9912312359', '0001010000']), setup, inp, n, dt.replace('.', 'p'),
        rng.choice([1, 1, 5]), rng.choice(['', '', '-two words', '-a-b', '_TEMP', '-t5', '-7_TEMP', '-v1.2']))
    others = []
    for k in range(rng.choice([0, 0, 1, 2])):
        others.append('%s-s2-i1-%dfr-t0p1-M1%s' % (rng.choice(['2403021014', '2403021016', '9999999999', '0']),
                                                   rng.randint(1, 3), '-o%d' % k))
    fault = rng.choice([None, None, 'encoder', 'encoder', 'stop', 'read'])
    enc = {}
    plan = []
    if fault == 'encoder':
        enc = dict(how=rng.choice(['missing', 'refuse', 'dies', 'late']), at=rng.randint(0, n))
    elif fault == 'stop':
        plan = [dict(do=rng.choice(['kill', 'int']), cls=rng.choice(['any', 'encoder', 'encoder', 'out', 'read']),
                     frac=rng.random())]
    elif fault == 'read':
        plan = [dict(do='errno', errno='EIO', cls=rng.choice(['open', 'read']), frac=rng.random())]
    # which rows the second file changes, and what in them
    change = {}
    for k in range(n):
        if rng.random() < .5:
            what = []
            if ns:
                what += ['c', 'r', 'f']
            if nd:
                what += ['d', 'x', 'g', 'h']
            w = rng.choice(what)
            if k == n - 1 and w in 'fgh':
                w = 'c' if ns else 'x'
            change[str(k)] = w
    return dict(rows=rows, ns=ns, nd=nd, name=name, others=others, enc=enc, plan=plan, change=change,
                old_video=rng.random() < .3, dates=rng.random() < .5, seed=rng.randrange(1 << 30))


def arrays(rows, ns, nd):
    n = len(rows)
    return dict(Fa=np.array([r['f'] for r in rows], float).reshape(n, ns, 3),
                Fb=np.array([r['g'] for r in rows], float).reshape(n, nd, 3),
                DFb=np.array([r['h'] for r in rows], float).reshape(n, nd, 3),
                Sa=np.zeros((n, ns, 3, 3)),
                centres=np.array([r['c'] for r in rows], float).reshape(n, ns + nd, 3),
                deltax=np.array([r['d'] for r in rows], float).reshape(n, nd, 3),
                force_on_wall_due_to_dumbbells=np.zeros(n),
                sphere_rotations=(np.array([r['c'][:ns] for r in rows], float).reshape(n, ns, 1, 3)
                                  + np.array([r['r'] for r in rows], float).reshape(n, ns, 2, 3)))


def changed(case):
    rng = random.Random(case['seed'])
    ns = case['ns']
    rows = []
    for k, r in enumerate(case['rows']):
        w = case['change'].get(str(k))
        r = dict(r)
        if w == 'c':                       # a sphere moves
            j = rng.randrange(ns)
            r['c'] = [list(x) for x in r['c']]
            r['c'][j][rng.choice([0, 2])] += .5
        elif w == 'x':                     # a dumbbell moves
            j = rng.randrange(ns, ns + case['nd'])
            r['c'] = [list(x) for x in r['c']]
            r['c'][j][rng.choice([0, 2])] += .5
        elif w == 'r':                     # a sphere turns
            j = rng.randrange(ns)
            r['r'] = [list(x) for x in r['r']]
            (a, b) = r['r'][j]
            r['r'][j] = [[-x for x in b], [x for x in a]]
        elif w == 'd':                     # a dumbbell turns
            j = rng.randrange(case['nd'])
            r['d'] = [list(x) for x in r['d']]
            x, y, z = r['d'][j]
            r['d'][j] = [-z, y, x]
        elif w == 'f':
            j = rng.randrange(ns)
            r['f'] = [list(x) for x in r['f']]
            r['f'][j] = [.05, 0.0, 0.0] if sum(x * x for x in r['f'][j]) > .25 else [.95, 0.0, 0.0]
        elif w in ('g', 'h'):              # no force on one bead any more
            j = rng.randrange(case['nd'])
            r[w] = [list(x) for x in r[w]]
            r[w][j] = list(r['gh'.replace(w, '')][j])
        rows.append(r)
    return rows


def driver(case, look):
    code = proc.code_for(SCRIPT)

    def go(rt):
        main = sys.modules['__main__'].__dict__
        try:
            exec(code, main)
        finally:
            if look and rt.encoders and not rt.dead:
                rt.in_monitor = True
                try:
                    rt.notes.append(('seen', pictures(rt, case)))
                finally:
                    rt.in_monitor = False
    return go


def pictures(rt, case):
    """For every frame the encoder got: where a particle of its row should be
    seen, is something coloured there?"""
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import proj3d
    e = rt.encoders[-1]
    fig = plt.gcf()
    axes = [a for a in fig.axes if hasattr(a, 'get_proj')]
    if not axes or not e.frames:
        return None
    ax = axes[0]
    M = ax.get_proj()
    W, H = e.size
    fw, fh = fig.canvas.get_width_height()
    missing = []
    ns = case['ns']
    a = arrays(case['rows'], ns, case['nd'])
    for k, raw in enumerate(e.frames[:len(case['rows'])]):
        im = np.frombuffer(raw, np.uint8).reshape(H, W, 4)[:, :, :3].astype(int)
        points = []
        for j in range(ns):
            for off in ((.5, .5), (-.5, .5), (.5, -.5), (-.5, -.5)):
                points.append(('sphere %d' % j, a['centres'][k, j] + [off[0], 0, off[1]]))
        for j in range(case['nd']):
            dx = a['deltax'][k, j]
            side = np.array([-dx[2], 0, dx[0]]) / np.linalg.norm(dx) * .06
            for s in (-.5, .5):
                for t in (-1, 1):          # beside the line between the beads
                    points.append(('bead of dumbbell %d' % j, a['centres'][k, ns + j] + s * dx + t * side))
        for what, p in points:
            x, y, _ = proj3d.proj_transform(p[0], p[1], p[2], M)
            px, py = ax.transData.transform((x, y))
            px, py = px * W / fw, H - py * H / fh
            ix, iy = int(round(px)), int(round(py))
            if not (2 <= ix < W - 2 and 2 <= iy < H - 2):
                continue
            near = im[iy - 1:iy + 2, ix - 1:ix + 2].reshape(-1, 3)
            if (near.max(1) - near.min(1)).max() < 60:
                missing.append((k, what))
    return missing


def start(case, ctx, rows, label, enc=None, plan=(), fresh=True, look=False):
    w = ctx.world
    if fresh:
        w.reset({}, dirs=('output', 'output_videos', 'plotting'))
        for o in case['others']:
            r = [row(random.Random(o), 1, 0, False)]
            # created earlier, but sometimes dated later
            w.put('output/%s.npz' % o, config.npz(arrays(r, 1, 0)),
                  mtime=time.time() + 5000 if case.get('dates') else None)
            time.sleep(.012)
        w.put('output/%s.npz' % case['name'], config.npz(arrays(rows, case['ns'], case['nd'])))
        if case['old_video']:
            w.put('output_videos/%s.mp4' % case['name'], b'an earlier video')
    rec = ctx.run(dict(script='make_video.py', cwd='plotting', syspath=[proc.SD], argv=[], redirect=[],
                       encoder=dict(enc or {}, keep=look), plan=list(plan)), driver(case, look), label)
    return rec


def judge(case, ctx, rec, before, what):
    """What must be true however it ended.  Returns whether it says it is done."""
    res = ctx.case
    files = ctx.world.files()
    e = rec['encoders'][-1] if rec['encoders'] else None
    n = len(case['rows'])
    if rec['status'] not in ('exit', 'killed'):
        res.bad('ends', '%s ended with %s' % (what, rec['status']))
        return False
    out = {p: b for p, b in files.items() if p.startswith('output/')}
    if out != before:
        ch = sorted(p for p in set(out) | set(before) if out.get(p) != before.get(p))
        res.bad('output', '%s changed the output folder: %s' % (what, ', '.join(ch)))
    stray = [p for p in files if not p.startswith(('output/', 'output_videos/', 'tmp/'))]
    if stray or rec['escapes']:
        res.bad('stray', '%s left %s' % (what, ', '.join(stray) or rec['escapes'][0]))
    done = 'Completed' in rec['out']
    took = e is not None and e['ended'] and e['code'] == 0 and len(e['digests']) == n and not e['left']
    if done and not took:
        res.bad('claims', '%s: completion was announced, but the encoder %s' % (
            what, 'was never started' if e is None else 'got %d of %d frames and ended with %s' % (
                len(e['digests']), n, e['code'])))
    return done


def run(case, ctx):
    res = ctx.case
    n = len(case['rows'])
    res.extra['classes'] = ['%d rows' % n] + (['encoder ' + case['enc']['how']] if case['enc'] else []) + \
        (['spheres'] if case['ns'] else []) + (['dumbbells'] if case['nd'] else [])
    w = ctx.world
    first = None
    if case['plan'] and 'nth' not in case['plan'][0]:
        first = start(case, ctx, case['rows'], 'undisturbed video')
        case['plan'] = [dict({a: b for a, b in p.items() if a != 'frac'},
                             nth=int(p['frac'] * max(1, seams.count_class(p['cls'], first))))
                        for p in case['plan']]
    fresh = True
    if case['enc'] or case['plan']:
        rec = start(case, ctx, case['rows'], 'disturbed video', case['enc'], case['plan'])
        res.nontrivial = bool(rec['fired'])
        done = judge(case, ctx, rec, saved_files(case), res.trace[-1])
        if not rec['fired'] and not done:
            res.bad('done', 'nothing went wrong, yet it did not complete: %s' % rec['err'][-300:])
        fresh = False
    rec = start(case, ctx, case['rows'], 'video', fresh=fresh, look=True)
    what = res.trace[-1]
    done = judge(case, ctx, rec, saved_files(case), what)
    e = rec['encoders'][-1] if rec['encoders'] else None
    if not done or rec['code']:
        res.bad('done', 'nothing was disturbed, yet the video was not completed (%s %s): %s' % (
            rec['status'], rec['code'], (rec['err'] or rec['out'])[-400:]))
        return
    if e is None:
        return
    target = 'output_videos/%s.mp4' % case['name']
    if os.path.basename(e['target']) != case['name'] + '.mp4' or target not in w.files():
        res.bad('name', 'the video of %s was called %s' % (case['name'], os.path.basename(e['target'])))
        return
    for k, v in rec['notes']:
        if k == 'seen' and v:
            res.bad('picture', 'frame %d of the video does not show %s of row %d where it is' % (
                v[0][0], v[0][1], v[0][0]))
            return
    if first is not None and first['encoders'] and first['encoders'][-1]['digests'] != e['digests']:
        res.bad('repeat', 'two videos of the same file differ')
    if not case['change']:
        return
    res.nontrivial = True
    rec2 = start(case, ctx, changed(case), 'video of the changed file')
    e2 = rec2['encoders'][-1] if rec2['encoders'] else None
    if e2 is None or len(e2['digests']) != n:
        res.bad('done', 'the video of the changed file has %d frames instead of %d' % (
            len(e2['digests']) if e2 else 0, n))
        return
    for k in range(n):
        w_ = case['change'].get(str(k))
        same = e['digests'][k] == e2['digests'][k]
        names = {'c': 'the place of a sphere', 'x': 'the place of a dumbbell', 'r': 'the turn of a sphere',
                 'd': 'the direction of a dumbbell', 'f': 'the force on a sphere', 'g': 'the force on a dumbbell',
                 'h': 'the force difference on a dumbbell'}
        if w_ and same:
            res.bad('row', 'row %d of %d was changed (%s), but frame %d is the same' % (k, n, names[w_], k))
        if not w_ and not same:
            if k == n - 1 and case['change'].get(str(k - 1)) in ('f', 'g', 'h'):
                continue                   # the last frame may take its colours from the row before
            res.bad('row', 'row %d of %d was not changed, but frame %d is different (changed rows: %s)' % (
                k, n, k, case['change']))


def saved_files(case):
    r = {'output/%s.npz' % o: config.npz(arrays([row(random.Random(o), 1, 0, False)], 1, 0))
         for o in case['others']}
    r['output/%s.npz' % case['name']] = config.npz(arrays(case['rows'], case['ns'], case['nd']))
    return r


def smaller(case):
    if case['plan']:
        yield dict(case, plan=[])
    if case['enc']:
        yield dict(case, enc={})
    if case['others']:
        yield dict(case, others=[])
        yield dict(case, others=case['others'][:1])
    if case.get('dates'):
        yield dict(case, dates=False)
    if case['old_video']:
        yield dict(case, old_video=False)
    for k in case['change']:
        yield dict(case, change={a: b for a, b in case['change'].items() if a != k})
    if len(case['rows']) > 1:
        m = len(case['rows']) - 1
        yield dict(case, rows=case['rows'][:m],
                   change={a: b for a, b in case['change'].items()
                           if int(a) < m - 1 or int(a) == m - 1 and b not in 'fgh'})
    for part in ('-two words', '-a-b', '_TEMP', '-t5', '-7', '-v1.2'):
        if part in case['name']:
            yield dict(case, name=case['name'].replace(part, ''))
