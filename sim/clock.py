"""The simulated clock."""
import datetime as _dt
import os
import time as _t


class Clock:
    """spec: start (epoch seconds), step (advance per reading), mode
    (steady|frozen|jitter), jumps: [[reading number, seconds], ...], tz."""

    def __init__(self, rt, spec):
        self.rt = rt
        self.t = float(spec.get('start', 1709286000.0))
        self.t0 = self.t
        self.step = float(spec.get('step', 0.01))
        self.mode = spec.get('mode', 'steady')
        self.jumps = {int(a): float(b) for a, b in spec.get('jumps', ())}
        self.mono = 1000.0
        self.reads = 0
        self.jumped = 0
        self.lo = self.hi = self.t

    def _tick(self, what):
        self.rt.ev('clock', what)
        d = self.step
        if self.mode == 'frozen':
            d = 0.0
        elif self.mode == 'jitter':
            d = self.step * self.rt.rng.choice([0, 0, 1, 2, 50, -1, -3])
        j = self.jumps.get(self.reads)
        self.reads += 1
        self.t += d
        self.mono += max(0.0, d)
        if j is not None:
            self.t += j
            self.jumped += 1
        self.t = min(max(self.t, 0.0), 7258118400.0)
        self.lo = min(self.lo, self.t)
        self.hi = max(self.hi, self.t)
        return self.t

    def summary(self):
        return dict(reads=self.reads, jumped=self.jumped, span=self.hi - self.lo,
                    mono=self.mono - 1000.0, end=self.t)


def install(rt, spec):
    from .seams import ORIG
    c = Clock(rt, spec)
    o = ORIG['time']
    if spec.get('tz'):
        os.environ['TZ'] = spec['tz']
        _t.tzset()
    _t.time = lambda: c._tick('time')
    _t.time_ns = lambda: int(c._tick('time') * 1e9)

    def mono():
        c._tick('mono')
        return c.mono
    _t.monotonic = mono
    _t.perf_counter = mono
    _t.process_time = mono
    _t.monotonic_ns = lambda: int(mono() * 1e9)
    _t.perf_counter_ns = _t.process_time_ns = _t.monotonic_ns

    def sleep(s):
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        rt.ev('clock', 'sleep')
        c.t += s
        c.mono += s
    _t.sleep = sleep
    _t.localtime = lambda s=None: o['localtime'](c._tick('local') if s is None else s)
    _t.gmtime = lambda s=None: o['gmtime'](c._tick('gm') if s is None else s)
    _t.ctime = lambda s=None: o['ctime'](c._tick('c') if s is None else s)

    def strftime(fmt, tup=None):
        return o['strftime'](fmt, o['localtime'](c._tick('strf')) if tup is None else tup)
    _t.strftime = strftime
    _t.asctime = lambda tup=None: o['asctime'](
        o['localtime'](c._tick('asc')) if tup is None else tup)
    D, DT = ORIG['date'], ORIG['datetime']

    class SimDatetime(DT):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(c._tick('now'), tz)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(c._tick('today'))

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(c._tick('utcnow'), _dt.timezone.utc).replace(tzinfo=None)

    class SimDate(D):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(c._tick('today'))
    SimDatetime.__name__ = 'datetime'
    SimDate.__name__ = 'date'
    _dt.datetime = SimDatetime
    _dt.date = SimDate
    return c
