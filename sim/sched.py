"""Interleaving of several simulated processes on one machine.

Each process stops before every file operation and waits; exactly one is let
on at a time, so the interleaving is decided here and nowhere else.  What was
done is returned as a schedule - [[process, number of operations], ...] - that
reproduces the interleaving when it is passed back in.
"""

from . import proc

POLICIES = ('uniform', 'sticky', 'rounds', 'priority', 'late')


class Lane:
    """A run and its repetitions, one process at a time."""

    def __init__(self, specs, code):
        self.specs = specs
        self.code = code
        self.proc = None
        self.recs = []
        self.started = 0
        self.done = False


def picker(policy, rng, n):
    """Function(live lanes) -> lane, by a named policy."""
    if policy == 'uniform':
        return lambda live: rng.choice(live)
    if policy == 'rounds':
        size = rng.choice([1, 1, 2, 3, 7, 20])
        state = [0, 0]

        def rounds(live):
            if state[1] <= 0 or state[0] not in live:
                later = [x for x in live if x > state[0]]
                state[0] = later[0] if later else live[0]
                state[1] = size
            state[1] -= 1
            return state[0]
        return rounds
    if policy == 'priority':
        order = list(range(n))
        rng.shuffle(order)
        changes = set(rng.randrange(400) for _ in range(rng.randint(1, 6)))
        count = [0]

        def priority(live):
            count[0] += 1
            if count[0] in changes:
                # the running one drops to the end
                first = next(x for x in order if x in live)
                order.remove(first)
                order.append(first)
            return next(x for x in order if x in live)
        return priority
    p = rng.choice([.5, .8, .95]) if policy == 'sticky' else .98
    cur = [None]

    def sticky(live):
        if cur[0] not in live or rng.random() > p:
            cur[0] = rng.choice(live)
        return cur[0]
    return sticky


def interleave(world, lanes, policy, rng, schedule=None, limit=200000):
    """Run all lanes to their end.  Returns (schedule, log) where log is the
    list of (lane, attempt, kind, detail) in the order in which it happened."""
    pick = picker(policy, rng, len(lanes))
    todo = [list(x) for x in schedule] if schedule is not None else None
    done = []
    log = []
    pending = {}

    def advance(i):
        """Start lane i, or receive its next operation; absorb its end."""
        lane = lanes[i]
        while True:
            if lane.proc is None:
                if lane.started == len(lane.specs):
                    lane.done = True
                    return
                lane.proc = world.start(lane.specs[lane.started], lane.code, gated=True)
                lane.started += 1
            t, m = lane.proc.next()
            if t == 'E':
                pending[i] = m
                return
            lane.proc.finish()
            lane.proc = None
            if m['status'] == 'harness':
                raise proc.HarnessError(m['err'])
            world.absorb(m)
            lane.recs.append(m)
            stop = m['status'] != 'exit' or m['code'] != 0
            if not stop or lane.started == len(lane.specs):
                lane.done = True
            return

    for _ in range(limit):
        live = [i for i, l in enumerate(lanes) if not l.done]
        if not live:
            break
        i = None
        if todo is not None:
            while todo and (todo[0][1] <= 0 or todo[0][0] not in live):
                todo.pop(0)
            if todo:
                i = todo[0][0]
                todo[0][1] -= 1
            else:
                i = live[0]
        else:
            i = pick(live)
        if done and done[-1][0] == i:
            done[-1][1] += 1
        else:
            done.append([i, 1])
        if i in pending:
            kind, detail = pending.pop(i)
            log.append((i, lanes[i].started, kind, detail))
            lanes[i].proc.grant()
        advance(i)
    for l in lanes:
        if l.proc is not None:
            l.proc.kill()
            l.proc = None
    return done, log


def simpler(schedule):
    """Schedules with fewer switches."""
    n = len(schedule)
    if n <= 1:
        return
    seen = set()
    for cut in (n // 2, n // 4, n // 8, 1):
        if cut < 1:
            continue
        for a in range(0, n, cut):
            s = join(schedule[:a] + schedule[a + cut:])
            k = repr(s)
            if k not in seen and len(s) < n:
                seen.add(k)
                yield s


def join(schedule):
    out = []
    for i, k in schedule:
        if out and out[-1][0] == i:
            out[-1][1] += k
        else:
            out.append([i, k])
    return out
