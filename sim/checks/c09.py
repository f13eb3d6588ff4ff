"""C09: watching the animation does not change what is saved."""
import random

from .. import config, make, monitors, oracle
from ..config import FRC, KEYS, POS

PROP = 'C09'
LEVEL = 'exploration'
CASES = {'quick': 620, 'thorough': 4000}
PRELOAD = ('matplotlib', 'matplotlib.pyplot', 'matplotlib.animation', 'mpl_toolkits.mplot3d',
           'matplotlib.backends.backend_agg')
RULE = ('case = configuration x view settings x sequence of window events (timer ticks, bursts, redraws, '
        'resizes, mouse, keys, close), optionally stopped during the animation and repeated; non-trivial = '
        'an event other than a timer tick was delivered before the last frame')

EVENTS = ('timer', 'timer', 'timer', 'draw', 'idle', 'resize', 'motion', 'key', 'burst')


def gen(rng, i, tier):
    c = make.run_config(rng, frames=rng.choice([1, 2, 3, 4, 5, 6, 8]), periodic=.05,
                        schemes=('euler', 'euler', 'euler', 'ab2', 'rk4'))
    if c['scheme'] == 'rk4':
        c['frames'] = min(c['frames'], 3)
    c['desc'] = None
    c['temp'] = rng.choice([1, 2, 3, 120])
    if not oracle.due(c, c['every']) or not oracle.due(c, c['fevery']):
        c['start'] = 0
    e = {}
    if rng.random() < .5:
        e['view_labels'] = True
    if rng.random() < .6:
        e['trace_paths'] = rng.choice([1, 2, 3, 1000])
    if rng.random() < .5:
        e['two_d_plot'] = False
    if rng.random() < .4:
        e['viewing_angle'] = rng.choice([[30, 40], [0, -90], [90, 0], [-20, 200]])
    if rng.random() < .2:
        e['viewbox_bottomleft_topright'] = rng.choice([
            [[-5, -5, -5], [5, 5, 5]], [[-15, 0, -15], [15, 1, 15]], [[0, 0, 0], [4, 4, 4]]])
    c['extra'] = e
    events = [rng.choice(EVENTS) for _ in range(rng.randint(0, 2 * c['frames'] + 3))]
    if rng.random() < .5:
        # not before the first frame
        events = ['timer'] + events
        events.insert(rng.randint(1, len(events)), 'close')
    stop = None
    if rng.random() < .25 and c['frames'] > 1 and c['minv'] == 1 and c['scheme'] != 'ab2':
        stop = make.stop(rng, kinds=('kill',), classes=('gui', 'backup', 'any'))
    return dict(config=c, events=events, stop=stop, plain_again=rng.random() < .4,
                seed=rng.randrange(1 << 30))


def run(case, ctx):
    c = case['config']
    res = ctx.case
    ref = oracle.clean(ctx, c, 'run without graphics')
    if ref is None:
        return
    rec0, good, name = ref
    cv = dict(c, view=True)
    w = ctx.world
    code = config.code()
    w.reset(config.files_for(c))
    if case['stop']:
        rec = None
        if 'nth' not in case['stop']:
            # where to stop depends on the number of events with graphics
            rec = ctx.run(config.spec_for(cv, gui=dict(events=case['events'])), code,
                          'undisturbed animation')
            case['stop'] = make.place(case['stop'], oracle.counts_of(rec))
            w.reset(config.files_for(c))
        rec = ctx.run(config.spec_for(cv, plan=[case['stop']], gui=dict(events=case['events'])), code,
                      'animation, stopped')
        if config.results_in(w.files()):
            return
        shown = dict(c, view=not case['plain_again'])
        rec = ctx.run(config.spec_for(shown, gui={}, clock=dict(start=1709386000.0)), code,
                      'repeated %s graphics' % ('with' if shown['view'] else 'without'))
        early = False
    else:
        rec = ctx.run(config.spec_for(cv, gui=dict(events=case['events'])), code, 'animation')
        early = rec['gui'] and rec['gui']['closed_early']
    g = rec['gui'] or {'delivered': {}}
    if [k for k in g['delivered'] if k not in ('timer',)] and case['events']:
        res.nontrivial = True
    what = '%s, window events %s' % (res.trace[-1], ' '.join(case['events']) or 'none')
    if not oracle.completed(rec):
        res.bad('ends', 'with the animation the run ended with %s %s (%s): %s' % (
            rec['status'], rec['code'], what, oracle.tail(rec)))
        return
    files = w.files()
    results = config.results_in(files)
    if len(results) != 1:
        res.bad('results', '%d results files after %s' % (len(results), what))
        return
    if results[0].split('-', 1)[1] != name.split('-', 1)[1]:
        res.bad('results', 'the results file is called %s' % results[0])
        return
    d = monitors.load_npz(files[results[0]])
    if d is None:
        res.bad('results', 'the results file is unreadable after %s' % what)
        return
    res.extra['classes'] = ['closed early' if early else 'to the end', case['config']['scheme']]
    if not early:
        e = oracle.diff(d, good)
        if e:
            res.bad('rows', 'with the animation the saved arrays differ: %s (%s)' % (e, what))
        return
    e = oracle.prefix_of(d, good, c)
    if e:
        res.bad('rows', 'the window was closed early and %s (%s)' % (e, what))
        return
    ticks = g['delivered'].get('timer', 0)
    if ticks and c['frames'] > 1:
        last = min(ticks, c['frames']) - 1
        n = oracle.pos_rows(c, last), oracle.frc_rows(c, last)
        m = {len(d[k]) for k in POS}, {len(d[k]) for k in FRC}
        if m != ({n[0]}, {n[1]}):
            res.bad('covered', 'the window was closed after %d frames, which should give %d position and %d '
                    'force rows; there are %s and %s (%s)' % (last + 1, n[0], n[1], m[0], m[1], what))


def smaller(case):
    if case['stop']:
        yield dict(case, stop=None)
        for s in make.smaller_stops([case['stop']]):
            if s:
                yield dict(case, stop=s[0])
    for e in make.smaller_list(case['events']):
        if 'close' not in e or 'timer' in e[:e.index('close')]:
            yield dict(case, events=e)
    c = case['config']
    for k in list(c['extra']):
        yield dict(case, config=dict(c, extra={a: b for a, b in c['extra'].items() if a != k}))
    for c in make.smaller_config(case['config']):
        if c['frames'] > 1 and c['extra']:
            yield dict(case, config=c)
        elif not c['extra']:
            yield dict(case, config=c)
