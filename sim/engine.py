"""Runs the cases of a check on all cores, minimises what fails, and writes
the evidence."""
import collections
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import proc, seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL = ['run_simulation.py and every module it imports, executed unmodified from '
        'the working tree (numba.njit functions interpreted: NUMBA_DISABLE_JIT=1)',
        'numpy, scipy, zipfile/zlib, smtplib, matplotlib (figure, artists, '
        'FuncAnimation)', 'file contents and names: real files in a scratch folder']
STUB = ['process death, errors and power loss of the disk (journal model)',
        'clock, time zone, random numbers, host name, memory reading',
        'mail server and TLS', 'window-system event loop']


class Case:
    """What a check's run() fills in."""

    def __init__(self):
        self.viol = []           # (key, text)
        self.sig = hashlib.sha256()
        self.nontrivial = False
        self.stats = collections.Counter()
        self.fired = collections.Counter()
        self.sim_s = 0.0
        self.trace = []
        self.extra = {}

    def bad(self, key, text):
        self.viol.append((key, text))


class Ctx:
    """One worker's machine."""

    def __init__(self, root, tier='quick'):
        self.world = proc.World(root)
        self.tier = tier
        self.case = Case()

    def new_case(self):
        self.case = Case()
        return self.case

    def note(self, rec, label=''):
        c = self.case
        c.stats['processes'] += 1
        c.stats['events'] += rec['n']
        for f in rec['fired']:
            c.fired[f[0] + '@' + f[1]] += 1
        if rec.get('clock'):
            c.sim_s += rec['clock']['mono']
        d = proc.digest(rec)
        c.sig.update(d.encode())
        c.trace.append('%s: %s%s after %d events%s' % (
            label, rec['status'], '' if rec['code'] is None else ' %s' % rec['code'],
            rec['n'], ''.join('; %s at event %d (%s %s)' % (
                f[0], f[2], f[1], _short(rec, f[2])) for f in rec['fired'])))
        if rec['escapes']:
            c.stats['writes outside the scratch folder (blocked)'] += len(rec['escapes'])

    def run(self, spec, code, label='run', world=None):
        w = world or self.world
        rec = w.run(spec, code)
        self.note(rec, label)
        return rec

    def signature(self, *what):
        self.case.sig.update(repr(what).encode())


def _short(rec, i):
    try:
        return str(rec['details'][i][0])
    except Exception:
        return ''


def scratch():
    for d in ('/dev/shm', os.environ.get('TMPDIR', '/tmp'), '/tmp'):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > 1 << 30:
                return tempfile.mkdtemp(prefix='verif-', dir=d)
        except OSError:
            pass
    return tempfile.mkdtemp(prefix='verif-')


def do_case(mod, seed, i, ctx):
    rng = random.Random('%s-%s-%d' % (seed, mod.PROP, i))
    case = mod.gen(rng, i, ctx.tier)
    return case, execute(mod, case, ctx)


def execute(mod, case, ctx):
    res = ctx.new_case()
    try:
        mod.run(case, ctx)
    except proc.HarnessError:
        res.extra['harness'] = traceback.format_exc()
    except Exception:
        res.extra['harness'] = traceback.format_exc()
    res.sig = res.sig.hexdigest()[:20]
    return res


def _put(fd, obj):
    d = pickle.dumps(obj, protocol=4)
    d = struct.pack('<Q', len(d)) + d
    mv = memoryview(d)
    while mv:
        n = os.write(fd, mv[:1 << 16])
        mv = mv[n:]


def worker(mod, seed, tier, idxs, fd, root, deadline):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    ctx = Ctx(root, tier)
    for i in idxs:
        if time.monotonic() > deadline:
            break
        t = time.monotonic()
        case, res = do_case(mod, seed, i, ctx)
        res.extra['t'] = time.monotonic() - t
        _put(fd, (i, case, res))
    _put(fd, None)


def shrink(mod, case, key, ctx, deadline):
    """Greedy minimisation: keep any smaller case that fails the same way."""
    best, best_res = case, None
    tried = 0
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for cand in mod.smaller(best):
            if time.monotonic() > deadline:
                break
            tried += 1
            try:
                res = execute(mod, cand, ctx)
            except Exception:
                continue
            if 'harness' in res.extra:
                continue
            if any(k == key for k, _ in res.viol):
                best, best_res = cand, res
                progress = True
                break
    return best, best_res, tried


def load_known():
    """Lines 'known: property=<id> key=<key> match=<text> :: <what fails>'."""
    r = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                head, _, what = l[6:].partition('::')
                d = dict(x.split('=', 1) for x in head.split())
                d['what'] = what.strip()
                r.append(d)
    return r


def known_for(prop, case, key, text, known):
    for k in known:
        if k.get('property') == prop and k.get('key') == key and \
                all(m in (text + json.dumps(case, sort_keys=True))
                    for m in k.get('match', '').split('|')):
            return k
    return None


def prewarm(root):
    """Compile the modules of the current tree once, outside any case."""
    from . import config
    w = proc.World(os.path.join(root, 'warm'))
    c = config.make(frames=1)
    try:
        w.run(config.spec_for(c), config.code())
    except Exception:
        pass


def main(mod, argv):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    root = scratch()
    try:
        sys.pycache_prefix = os.path.join(root, 'pyc')
        if '--replay' in argv:
            return replay(mod, argv[argv.index('--replay') + 1], root)
        return check(mod, seed, tier, root, t0, argv)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def replay(mod, path, root):
    with open(path) as f:
        r = json.load(f)
    ctx = Ctx(os.path.join(root, 'w'))
    prewarm(root)
    res = execute(mod, r['case'], ctx)
    print('\n'.join(res.trace))
    if 'harness' in res.extra:
        print(res.extra['harness'])
        return 3
    for k, t in res.viol:
        print('  [%s] %s' % (k, t))
    same = res.sig == r.get('signature')
    print('execution %s the recorded one' % ('identical to' if same else 'differs from'))
    if res.viol:
        print('VIOLATION property=%s replay=%s' % (mod.PROP, path))
        return 1
    print('no violation')
    return 0


def check(mod, seed, tier, root, t0, argv):
    n = mod.CASES[tier]
    if '--cases' in argv:
        n = int(argv[argv.index('--cases') + 1])
    jobs = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    cap = mod.CAP[tier] if hasattr(mod, 'CAP') else {'quick': 240, 'thorough': 780}[tier]
    deadline = t0 + cap
    prewarm(root)
    if hasattr(mod, 'prepare'):
        mod.prepare(root)
    known = load_known()
    fds, pids = {}, []
    sys.stdout.flush()
    for k in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            st = 1
            try:
                os.close(r)
                for fd in fds:
                    os.close(fd)
                worker(mod, seed, tier, range(k, n, jobs), w,
                       os.path.join(root, 'w%d' % k), deadline)
                st = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(st)
        os.close(w)
        fds[r] = bytearray()
        pids.append(pid)
    done = {}
    viols, harness, known_hits = [], [], {}
    stop_at = None
    bufs = fds
    open_fds = set(bufs)
    finished = 0
    while open_fds:
        now = time.monotonic()
        if stop_at is not None and now > stop_at:
            break
        if now > deadline + 200:
            break
        rd, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in rd:
            d = os.read(fd, 1 << 20)
            if not d:
                open_fds.discard(fd)
                continue
            b = bufs[fd]
            b += d
            while len(b) >= 8:
                ln = struct.unpack('<Q', bytes(b[:8]))[0]
                if len(b) < 8 + ln:
                    break
                m = pickle.loads(bytes(b[8:8 + ln]))
                del b[:8 + ln]
                if m is None:
                    finished += 1
                    continue
                i, case, res = m
                done[i] = (case, res)
                if 'harness' in res.extra:
                    harness.append((i, res.extra['harness']))
                for key, text in res.viol:
                    k = known_for(mod.PROP, case, key, text, known)
                    if k:
                        known_hits[k['what']] = known_hits.get(k['what'], 0) + 1
                    else:
                        viols.append((i, key, text))
                        if stop_at is None:
                            stop_at = time.monotonic() + 2.0
    for pid in pids:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    run_s = time.monotonic() - t0
    code = 0
    out = None
    if viols:
        i, key, text = min(viols)
        case, res = done[i]
        ctx = Ctx(os.path.join(root, 'shrink'), tier)
        lim = time.monotonic() + (60 if tier == 'quick' else 180)
        case2, res2, tried = shrink(mod, case, key, ctx, lim)
        if res2 is None:
            res2 = execute(mod, case2, ctx)
        texts = [t for k, t in res2.viol if k == key] or [text]
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        out = os.path.join(rdir, '%s-seed%d-case%d.json' % (mod.PROP, seed, i))
        with open(out, 'w') as f:
            json.dump(dict(property=mod.PROP, seed=seed, index=i, key=key,
                           violation=texts[0], case=case2, original_case=case,
                           signature=res2.sig, trace=res2.trace,
                           shrink_steps=tried), f, indent=1)
        print('case %d of seed %d, minimised in %d steps:' % (i, seed, tried))
        for l in res2.trace:
            print('  ' + l)
        print('  [%s] %s' % (key, texts[0]))
        print('VIOLATION property=%s replay=%s' % (mod.PROP, out))
        code = 1
    elif harness:
        print('harness failure in case %d:\n%s' % harness[0])
        code = 3
    elif not done:
        print('no case was executed')
        code = 3
    for what in sorted(known_hits):
        print('KNOWN-FINDING: property=%s %s' % (mod.PROP, what))
    # repeat a few executions: one seed must be one execution
    rep = same = 0
    if code == 0:
        ctx = Ctx(os.path.join(root, 'again'), tier)
        for i in sorted(done)[:3]:
            case, res = do_case(mod, seed, i, ctx)
            rep += 1
            same += res.sig == done[i][1].sig
    write_evidence(mod, seed, tier, done, run_s, time.monotonic() - t0, n,
                   code, jobs, rep, same, known_hits, viols)
    if code == 0:
        print('property %s held in %d cases (%d distinct non-trivial), %.0f s'
              % (mod.PROP, len(done), _distinct(done), time.monotonic() - t0))
    return code


def _distinct(done):
    return len({r.sig for _, r in done.values() if r.nontrivial})


def write_evidence(mod, seed, tier, done, run_s, wall, planned, code, jobs,
                   rep, same, known_hits, viols):
    stats, fired = collections.Counter(), collections.Counter()
    sim_s = 0.0
    hist = collections.Counter()
    for case, r in done.values():
        stats.update(r.stats)
        fired.update(r.fired)
        sim_s += r.sim_s
        for k in r.extra.get('classes', ()):
            hist[k] += 1
    samples = []
    for i in sorted(done):
        case, r = done[i]
        if r.nontrivial and len(samples) < 3:
            samples.append(dict(index=i, case=case, trace=r.trace, signature=r.sig))
    cov = dict(
        evaluations=len(done), distinct_nontrivial=_distinct(done),
        rule=mod.RULE, samples=samples,
        cases_planned=planned,
        runs_per_hour=round(len(done) / max(run_s, 1e-9) * 3600),
        simulated_processes=stats.pop('processes', 0),
        events=stats.pop('events', 0),
        simulated_clock_seconds=round(sim_s, 1),
        faults_fired=dict(sorted(fired.items())),
        distinct_measure='different hash over the event sequences (kind, file, order), '
                         'exit statuses and fired faults of all processes of the case',
        other_counts=dict(stats), case_classes=dict(hist),
        determinism={'re-executed cases': rep, 'identical': same},
        slowest_case_s=round(max([r.extra.get('t', 0) for _, r in done.values()] or [0]), 2),
        real_components=getattr(mod, 'COMPONENTS', REAL),
        simulated_components=getattr(mod, 'STAND_INS', STUB),
        known_findings_seen=known_hits,
        violations=len(viols))
    ev = dict(property=mod.PROP, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=cov, wall_s=round(wall, 2), jobs=jobs, exit=code)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, mod.PROP + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
