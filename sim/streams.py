"""Streams of uniform random numbers handed to the program."""


class Stream:
    """`spec['segments']` is a list of {mode, n, ...}; after them the stream is
    fair.  Modes: fair, const (v), cycle (vs), echo (an earlier block of three
    numbers again, jittered by eps), last (the most recent block of three
    again)."""

    def __init__(self, spec, rng):
        self.segs = [dict(s) for s in spec.get('segments', ())]
        self.rng = rng
        self.hist = []
        self.queue = []
        self.fair_since = None if self.segs else 0
        self.n = 0

    def next(self):
        v = self._next()
        v = min(max(v, 0.0), 1.0 - 2.0 ** -53)
        self.hist.append(v)
        self.n += 1
        return v

    def _next(self):
        if self.queue:
            return self.queue.pop(0)
        while self.segs and self.segs[0]['n'] <= 0:
            self.segs.pop(0)
        if not self.segs:
            if self.fair_since is None:
                self.fair_since = self.n
            return self.rng.random()
        s = self.segs[0]
        s['n'] -= 1
        m = s['mode']
        if m == 'const':
            return s['v']
        if m == 'cycle':
            s['i'] = (s.get('i', -1) + 1) % len(s['vs'])
            return s['vs'][s['i']]
        if m in ('echo', 'last') and len(self.hist) >= 3:
            nb = len(self.hist) // 3
            lim = s.get('first')
            b = nb - 1 if m == 'last' else self.rng.randrange(min(nb, lim) if lim else nb)
            eps = s.get('eps', 0.0)
            vals = [h + eps * (self.rng.random() - 0.5)
                    for h in self.hist[3 * b:3 * b + 3]]
            s['n'] -= 2
            self.queue = vals[1:]
            return vals[0]
        return self.rng.random()
