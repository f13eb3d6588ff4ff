"""The inside of a simulated process: every call that leaves the program goes
through here, is numbered as an event, and can be made to fail.

Nothing in this module knows how the program under test is written; it only
replaces the standard library's (and numpy's, psutil's, matplotlib's) doors to
the outside world.
"""
import builtins
import errno as _errno
import io
import os
import pickle
import random
import struct
import sys

import _io

ORIG = {}          # the real functions, kept before patching
SIM = None         # the Runtime of this process


def _save_originals():
    import datetime
    import glob
    import shutil
    import socket
    import tempfile
    import time
    ORIG.update(
        open=io.open, FileIO=io.FileIO,
        os={n: getattr(os, n) for n in (
            'open', 'write', 'close', 'replace', 'rename', 'remove', 'unlink',
            'fsync', 'fdatasync', 'sync', 'truncate', 'ftruncate', 'link',
            'symlink', 'mkdir', 'rmdir', 'scandir', 'listdir', 'pwrite', 'writev',
            'sendfile', 'copy_file_range', 'kill', 'system', 'getpid',
            'urandom', 'uname', 'read', '_exit', 'utime', 'chmod', 'getloadavg',
            'cpu_count', 'makedirs', 'chdir') if hasattr(os, n)},
        time={n: getattr(time, n) for n in (
            'time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter',
            'perf_counter_ns', 'process_time', 'process_time_ns', 'sleep',
            'strftime', 'localtime', 'gmtime', 'ctime', 'asctime')},
        datetime=datetime.datetime, date=datetime.date)


class Died(BaseException):
    """Never raised to the program; used only if _exit returns (it does not)."""


FILE_KINDS = frozenset(('open', 'open+', 'read', 'write', 'trunc', 'fsync', 'close',
                        'rename', 'unlink', 'link', 'mkdir', 'rmdir', 'list',
                        'utime'))
MUTATING = frozenset(('open+', 'write', 'trunc', 'rename', 'unlink', 'link',
                      'mkdir', 'rmdir'))


CHANGING = frozenset(MUTATING | {'fsync', 'close'})


def in_class(cls, kind, detail):
    """Is an event a member of a class of events?"""
    if cls == 'any':
        return True
    if cls == 'file':
        return kind in FILE_KINDS
    if cls == 'change':
        return kind in CHANGING
    if cls == 'backup':
        return kind in CHANGING and kind != 'unlink' and '_TEMP' in str(detail)
    if cls == 'bread':
        return kind in ('open', 'read') and '_TEMP' in str(detail)
    if cls == 'matrix':
        return kind in CHANGING and str(detail).endswith('.txt')
    if cls == 'start':
        return kind in ('open', 'read') and 'FILENAME' in str(detail)
    if cls == 'table':
        return kind in ('open', 'read') and str(detail).startswith('tables/')
    if cls == 'final':
        return kind in CHANGING and 'output' in str(detail) and (
            kind == 'unlink' or '_TEMP' not in str(detail)) and \
            'FILENAME' not in str(detail)
    return kind == cls


def count_class(cls, rec):
    return sum(1 for k, d in zip(rec['kinds'], rec['details'])
               if in_class(cls, k, d[0]))


class Runtime:
    """State of one simulated process."""

    def __init__(self, spec, root, send, gate=None):
        self.spec = spec
        self.root = os.path.realpath(root)
        self.send = send                   # callable(dict): hand over the record
        self.gate = gate                   # callable(kind, detail) or None
        self.n = 0
        self.kinds = []                    # kind of every event
        self.details = []
        self.plan = {}
        self.waiting = []                  # actions given as (class, nth)
        for a in spec.get('plan', ()):
            if 'at' in a:
                self.plan[a['at']] = a
            else:
                self.waiting.append([a['nth'], a])
        self.sticky = None
        self.fired = []
        self.journal = []
        self.inos = dict(spec.get('inos') or {})
        self.fds = {}
        self.next_ino = 0
        self.procid = spec.get('procid', 0)
        self.out = []
        self.err = []
        self.notes = []                    # anything monitors want to hand over
        self.escapes = []
        self.monitors = []                 # callables(kind, path) after mutations
        self.mid_write_monitor = False
        self.rng = random.Random(spec.get('rngseed', 'x'))
        self.max_events = spec.get('max_events', 400000)
        self.redirect = [(os.path.realpath(a), os.path.realpath(root) + b)
                         for a, b in spec.get('redirect', ())]
        self.readonly = [os.path.realpath(p) for p in spec.get('readonly', ())]
        self.deny = set(spec.get('deny', ()))      # files nobody may open
        self.clock = None
        self.dead = False
        self.in_monitor = False
        self.mail = None
        self.gui = None

    # -- events ----------------------------------------------------------
    def ev(self, kind, detail=None, size=0):
        """Register an event; returns the planned action if the caller has to
        handle it (torn/short/errno-after-partial writes)."""
        if self.in_monitor:
            return None
        if self.gate is not None and kind in FILE_KINDS:
            self.gate(kind, detail)
        i = self.n
        self.n += 1
        self.kinds.append(kind)
        self.details.append((detail, size))
        if self.n > self.max_events:
            self.die('budget')
        act = self.plan.get(i)
        for w in self.waiting:
            if in_class(w[1]['cls'], kind, detail):
                if w[0] == 0 and act is None:
                    act = w[1]
                w[0] -= 1
        if act is None:
            if self.sticky is not None and kind in self.sticky['kinds']:
                p = detail if isinstance(detail, str) else ''
                raise OSError(self.sticky['errno'],
                              os.strerror(self.sticky['errno']), p)
            return None
        do = act['do']
        if do == 'kill':
            self.fire(i, act, kind)
            self.die('killed')
        elif do == 'power':
            self.fire(i, act, kind)
            self.die('power')
        elif do == 'int':
            self.fire(i, act, kind)
            raise KeyboardInterrupt()
        elif do == 'errno':
            if kind in FILE_KINDS and kind != 'close':
                eno = getattr(_errno, act.get('errno', 'EIO'))
                self.fire(i, act, kind)
                if act.get('sticky'):
                    self.sticky = {'errno': eno,
                                   'kinds': tuple(act.get('kinds', ('write', 'open+')))}
                if kind == 'write' and act.get('part'):
                    return act
                raise OSError(eno, os.strerror(eno),
                              detail if isinstance(detail, str) else '')
            if kind in ('out', 'input') and act.get('screen'):   # the screen or log is gone
                eno = getattr(_errno, act.get('errno', 'EPIPE'))
                self.fire(i, act, kind)
                if act.get('sticky'):
                    self.sticky = {'errno': eno, 'kinds': ('out', 'input')}
                raise OSError(eno, os.strerror(eno))
            if kind in ('mail',):
                self.fire(i, act, kind)
                return act
            return None
        elif do == 'exc':                          # the machine is out of memory
            self.fire(i, act, kind)
            raise MemoryError('out of memory')
        elif do in ('torn', 'torn_power', 'short'):
            if kind == 'write':
                self.fire(i, act, kind)
                return act
            if do != 'short':                      # not a write: plain stop
                self.fire(i, act, kind)
                self.die('killed' if do == 'torn' else 'power')
        elif do in ('mail', 'solver'):
            if kind == do:
                self.fire(i, act, kind)
                return act
        return None

    def fire(self, i, act, kind):
        self.fired.append((act['do'] + (':' + act['errno'] if 'errno' in act else ''),
                           kind, i))

    def die(self, status, code=None):
        if self.dead:
            ORIG['os']['_exit'](3)
        self.dead = True
        self.send(self.record(status, code))
        ORIG['os']['_exit'](0)

    def record(self, status, code=None):
        return dict(status=status, code=code, n=self.n, kinds=self.kinds,
                    details=self.details, fired=self.fired,
                    journal=self.journal, inos=self.inos,
                    out=''.join(self.out), err=''.join(self.err),
                    notes=self.notes, escapes=self.escapes,
                    clock=self.clock.summary() if self.clock else None,
                    mail=self.mail.summary() if self.mail else None,
                    gui=self.gui.summary() if self.gui else None,
                    encoders=[e.summary() for e in getattr(self, 'encoders', ())],
                    next_ino=self.next_ino)

    # -- paths -----------------------------------------------------------
    def locate(self, path):
        """(real path to use, is simulated?) for a path given by the program."""
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        try:
            p = os.path.abspath(path)
        except (TypeError, ValueError):
            return path, False
        d, b = os.path.split(p)
        rd = os.path.realpath(d)
        p2 = os.path.join(rd, b) if b else rd
        for a, t in self.redirect:
            if p2 == a or p2.startswith(a + os.sep):
                p2 = t + p2[len(a):]
                return p2, True
        if p2 == self.root or p2.startswith(self.root + os.sep):
            return p2, True
        return path, False

    def rel(self, p):
        return p[len(self.root) + 1:] if p.startswith(self.root + os.sep) else p

    def guard(self, path, what):
        """A mutation outside the scratch folder is never carried out."""
        p = os.path.realpath(os.path.abspath(os.fsdecode(path)))
        if p in ('/dev/null', '/dev/stdout', '/dev/stderr', '/dev/tty'):
            return
        self.escapes.append((what, p))
        raise PermissionError(_errno.EACCES, 'outside the simulated folder', p)

    def check_deny(self, real):
        if self.rel(real) in self.deny:
            self.fired.append(('deny', 'open', self.n - 1))
            raise PermissionError(_errno.EACCES, 'Permission denied', real)

    # -- inodes / journal ------------------------------------------------
    def ino_of(self, path, create=False):
        k = self.rel(path)
        if k not in self.inos or create:
            self.next_ino += 1
            self.inos[k] = (self.procid, self.next_ino)
        return self.inos[k]

    def jot(self, *op):
        self.journal.append(op)

    def after(self, kind, path):
        if self.monitors and not self.in_monitor:
            self.in_monitor = True
            try:
                for m in self.monitors:
                    m(kind, self.rel(path) if path else path)
            finally:
                self.in_monitor = False


class SimFileIO(io.FileIO):
    """Raw file whose every system call is an event."""

    def __init__(self, path, mode='r', closefd=True, opener=None):
        sim = SIM
        self._sim_path = None
        self._sim_ino = None
        if isinstance(path, int):
            self._sim_path, self._sim_ino = sim.fds.get(path, (None, None))
            io.FileIO.__init__(self, path, mode, closefd)
            self._sim_append = 'a' in mode
            return
        real, _ = sim.locate(path)
        self._sim_append = 'a' in mode
        writing = any(c in mode for c in 'wax+')
        exists = os.path.lexists(real)
        opened_by_opener = []
        if opener is not None:
            def op2(p, flags):
                fd = opener(p, flags)
                opened_by_opener.append(fd)
                return fd
            io.FileIO.__init__(self, path, mode, closefd, op2)
            fd = self.fileno()
            if fd in sim.fds:
                self._sim_path, self._sim_ino = sim.fds[fd]
            else:
                self._sim_path = real
                self._sim_ino = sim.ino_of(real)
                sim.fds[fd] = (self._sim_path, self._sim_ino)
            return
        sim.ev('open+' if writing else 'open', sim.rel(real))
        sim.check_deny(real)
        io.FileIO.__init__(self, real, mode, closefd)
        self._sim_path = real
        if writing:
            if not exists:
                self._sim_ino = sim.ino_of(real, create=True)
                sim.jot('create', sim.rel(real), self._sim_ino)
            else:
                self._sim_ino = sim.ino_of(real)
                if 'w' in mode:
                    sim.jot('trunc', self._sim_ino, 0)
            if not exists or 'w' in mode:
                sim.after('open+', real)
        else:
            self._sim_ino = sim.inos.get(sim.rel(real))
        sim.fds[self.fileno()] = (real, self._sim_ino)

    def _tracked(self):
        return self._sim_path is not None

    def write(self, b):
        data = bytes(b)
        sim = SIM
        if not self._tracked():
            return io.FileIO.write(self, data)
        act = sim.ev('write', sim.rel(self._sim_path), len(data))
        if act is None and sim.mid_write_monitor and len(data) > 1:
            # an observer may look at the file in the middle of a write
            k = len(data) // 2
            self._raw(data[:k])
            sim.after('write', self._sim_path)
            n2 = self._raw(data[k:])
            sim.after('write', self._sim_path)
            return k + n2
        if act is not None:
            k = int(len(data) * act.get('frac', 0.5))
            k = max(0, min(k, len(data)))
            do = act['do']
            if do == 'short':
                k = max(1, min(k, len(data)))
                n = self._raw(data[:k])
                sim.after('write', self._sim_path)
                return n
            if k:
                self._raw(data[:k])
            if do == 'torn':
                sim.die('killed')
            if do == 'torn_power':
                sim.die('power')
            if do == 'errno':
                eno = getattr(_errno, act.get('errno', 'EIO'))
                raise OSError(eno, os.strerror(eno), self._sim_path)
        n = self._raw(data)
        sim.after('write', self._sim_path)
        return n

    def _raw(self, data):
        fd = self.fileno()
        if self._sim_append:
            off = os.fstat(fd).st_size
        else:
            off = os.lseek(fd, 0, 1)
        n = io.FileIO.write(self, data)
        SIM.jot('w', self._sim_ino, off, data[:n])
        return n

    def truncate(self, size=None):
        sim = SIM
        if self._tracked():
            sim.ev('trunc', sim.rel(self._sim_path))
            if size is None:
                size = self.tell()
            r = io.FileIO.truncate(self, size)
            sim.jot('trunc', self._sim_ino, size)
            sim.after('trunc', self._sim_path)
            return r
        return io.FileIO.truncate(self, size)

    def readinto(self, b):
        if self._tracked():
            SIM.ev('read', SIM.rel(self._sim_path))
        return io.FileIO.readinto(self, b)

    def read(self, size=-1):
        if self._tracked():
            SIM.ev('read', SIM.rel(self._sim_path))
        return io.FileIO.read(self, size)

    def readall(self):
        if self._tracked():
            SIM.ev('read', SIM.rel(self._sim_path))
        return io.FileIO.readall(self)

    def close(self):
        if not self.closed:
            if self._sim_path is not None and SIM is not None and not SIM.dead:
                try:
                    SIM.fds.pop(self.fileno(), None)
                    SIM.ev('close', SIM.rel(self._sim_path))
                finally:
                    io.FileIO.close(self)
                return
        io.FileIO.close(self)

    def __del__(self):
        try:
            io.FileIO.close(self)
        except Exception:
            pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    sim = SIM
    if sim is None or sim.in_monitor:
        return ORIG['open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if isinstance(file, int):
        if file not in sim.fds:
            return ORIG['open'](file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
        target = file
    else:
        path = os.fspath(file)
        real, simulated = sim.locate(path)
        if not simulated:
            if writing:
                sim.guard(path, 'open')
            return ORIG['open'](file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
        target = path if opener is not None else real
    # as io.open
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading = 'x' in modes, 'r' in modes
    wr, appending, updating = 'w' in modes, 'a' in modes, '+' in modes
    text, binary = 't' in modes, 'b' in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + wr + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    rawmode = ((creating and 'x' or '') + (reading and 'r' or '')
               + (wr and 'w' or '') + (appending and 'a' or '')
               + (updating and '+' or ''))
    raw = SimFileIO(target, rawmode, closefd, opener)
    result = raw
    try:
        line_buffering = False
        if buffering == 1:
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buffer = io.BufferedRandom(raw, buffering)
        elif creating or wr or appending:
            buffer = io.BufferedWriter(raw, buffering)
        else:
            buffer = io.BufferedReader(raw, buffering)
        result = buffer
        if binary:
            return result
        tw = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering)
        result = tw
        tw.mode = mode
        return result
    except BaseException:
        result.close()
        raise


# ---------------------------------------------------------------- os calls
def _mk_os():
    o = ORIG['os']

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        sim = SIM
        if sim is None or sim.in_monitor or dir_fd is not None:
            return o['open'](path, flags, mode, dir_fd=dir_fd)
        real, simulated = sim.locate(path)
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if not simulated:
            if writing:
                sim.guard(path, 'open')
            return o['open'](path, flags, mode)
        exists = os.path.lexists(real)
        if os.path.isdir(real):
            fd = o['open'](real, flags, mode)
            sim.fds[fd] = (real, 'dir')
            return fd
        sim.ev('open+' if writing else 'open', sim.rel(real))
        sim.check_deny(real)
        fd = o['open'](real, flags, mode)
        if writing:
            if not exists:
                ino = sim.ino_of(real, create=True)
                sim.jot('create', sim.rel(real), ino)
            else:
                ino = sim.ino_of(real)
                if flags & os.O_TRUNC:
                    sim.jot('trunc', ino, 0)
            sim.fds[fd] = (real, ino)
            sim.after('open+', real)
        else:
            sim.fds[fd] = (real, sim.inos.get(sim.rel(real)))
        return fd

    def os_write(fd, data):
        sim = SIM
        if sim is None or sim.in_monitor or fd not in sim.fds:
            return o['write'](fd, data)
        path, ino = sim.fds[fd]
        data = bytes(data)
        act = sim.ev('write', sim.rel(path), len(data))
        if act is not None:
            k = int(len(data) * act.get('frac', 0.5))
            if act['do'] == 'short':
                data = data[:max(1, k)]
            else:
                off = os.lseek(fd, 0, 1)
                if k:
                    m = o['write'](fd, data[:k])
                    sim.jot('w', ino, off, data[:m])
                if act['do'] == 'torn':
                    sim.die('killed')
                if act['do'] == 'torn_power':
                    sim.die('power')
                eno = getattr(_errno, act.get('errno', 'EIO'))
                raise OSError(eno, os.strerror(eno), path)
        off = os.lseek(fd, 0, 1)
        n = o['write'](fd, data)
        sim.jot('w', ino, off, data[:n])
        sim.after('write', path)
        return n

    def os_close(fd):
        sim = SIM
        if sim is not None and fd in sim.fds:
            path, _ = sim.fds.pop(fd)
            try:
                sim.ev('close', sim.rel(path))
            finally:
                o['close'](fd)
            return
        return o['close'](fd)

    def os_fsync(fd):
        sim = SIM
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        if sim is None or sim.in_monitor or fd not in sim.fds:
            return o['fsync'](fd)
        path, ino = sim.fds[fd]
        sim.ev('fsync', sim.rel(path))
        # the scratch folder lives in memory: no real fsync is needed
        sim.jot('sync', ino)

    def os_sync():
        if SIM is not None:
            SIM.ev('fsync', '*')
            SIM.jot('sync', '*')

    def two(name, kind, tag):
        def f(src, dst, *a, **kw):
            sim = SIM
            if sim is None or sim.in_monitor:
                return o[name](src, dst, *a, **kw)
            rs, s1 = sim.locate(src)
            rd, s2 = sim.locate(dst)
            if not s1 and tag != 'link' and tag != 'symlink':
                sim.guard(src, name)
            if not s2:
                sim.guard(dst, name)
            sim.ev(kind, (sim.rel(rs), sim.rel(rd)))
            r = o[name](rs, rd, *a, **kw)
            ks, kd = sim.rel(rs), sim.rel(rd)
            sim.jot(tag, ks, kd)
            if tag == 'ren':
                if ks in sim.inos:
                    sim.inos[kd] = sim.inos.pop(ks)
                else:
                    sim.inos.pop(kd, None)
                # files inside a renamed folder
                for k in [k for k in sim.inos if k.startswith(ks + os.sep)]:
                    sim.inos[kd + k[len(ks):]] = sim.inos.pop(k)
            elif tag == 'link' and ks in sim.inos:
                sim.inos[kd] = sim.inos[ks]
            sim.after(kind, rd)
            return r
        return f

    def one(name, kind, tag):
        def f(path, *a, **kw):
            sim = SIM
            if sim is None or sim.in_monitor or kw.get('dir_fd') is not None:
                return o[name](path, *a, **kw)
            real, s = sim.locate(path)
            if not s:
                sim.guard(path, name)
            sim.ev(kind, sim.rel(real))
            r = o[name](real, *a, **kw)
            sim.jot(tag, sim.rel(real))
            if tag == 'unl':
                sim.inos.pop(sim.rel(real), None)
            sim.after(kind, real)
            return r
        return f

    def os_truncate(path, length):
        sim = SIM
        if sim is None or sim.in_monitor:
            return o['truncate'](path, length)
        if isinstance(path, int):
            return os_ftruncate(path, length)
        real, s = sim.locate(path)
        if not s:
            sim.guard(path, 'truncate')
        sim.ev('trunc', sim.rel(real))
        o['truncate'](real, length)
        sim.jot('trunc', sim.ino_of(real), length)
        sim.after('trunc', real)

    def os_ftruncate(fd, length):
        sim = SIM
        if sim is None or fd not in sim.fds:
            return o['ftruncate'](fd, length)
        path, ino = sim.fds[fd]
        sim.ev('trunc', sim.rel(path))
        o['ftruncate'](fd, length)
        sim.jot('trunc', ino, length)
        sim.after('trunc', path)

    class ScanDir:
        def __init__(self, it, order):
            self.items = list(it)
            it.close()
            order(self.items, key=lambda e: e.name)
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i >= len(self.items):
                raise StopIteration
            self.i += 1
            return self.items[self.i - 1]

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def order(items, key=lambda x: x):
        items.sort(key=key)
        how = SIM.spec.get('listing', 'sorted')
        if how == 'reverse':
            items.reverse()
        elif how == 'shuffle':
            SIM.rng.shuffle(items)

    def os_scandir(path='.'):
        sim = SIM
        if sim is None or sim.in_monitor or isinstance(path, int):
            return o['scandir'](path)
        real, s = sim.locate(path)
        if not s:
            return o['scandir'](path)
        sim.ev('list', sim.rel(real))
        return ScanDir(o['scandir'](real if os.path.isabs(path) else path), order)

    def os_listdir(path='.'):
        sim = SIM
        if sim is None or sim.in_monitor or isinstance(path, int):
            return o['listdir'](path)
        real, s = sim.locate(path if path is not None else '.')
        if not s:
            return o['listdir'](path)
        sim.ev('list', sim.rel(real))
        items = o['listdir'](real)
        order(items)
        return items

    def os_kill(pid, sig):
        SIM.escapes.append(('kill', '%s %s' % (pid, sig)))
        raise PermissionError(_errno.EPERM, 'kill is not simulated')

    def no_fast(*a, **k):
        raise OSError(_errno.ENOSYS, 'not simulated')

    def os_pwrite(fd, data, off):
        sim = SIM
        if sim is None or sim.in_monitor or fd not in sim.fds:
            return o['pwrite'](fd, data, off)
        path, ino = sim.fds[fd]
        sim.ev('write', sim.rel(path), len(data))
        n = o['pwrite'](fd, data, off)
        sim.jot('w', ino, off, bytes(data)[:n])
        sim.after('write', path)
        return n

    def os_writev(fd, bufs):
        if SIM is None or SIM.in_monitor or fd not in SIM.fds:
            return o['writev'](fd, bufs)
        return os_write(fd, b''.join(bytes(b) for b in bufs))

    def os_urandom(n):
        SIM.ev('rand', 'urandom')
        return SIM.rng.randbytes(n)

    def os_uname():
        r = o['uname']()
        h = SIM.spec.get('host', {}).get('name', 'simhost')
        return os.uname_result((r.sysname, h, r.release, r.version, r.machine))

    def os_getpid():
        return 40000 + SIM.procid

    def path_op(name):
        def f(path, *a, **kw):
            sim = SIM
            if sim is None or sim.in_monitor or isinstance(path, int):
                return o[name](path, *a, **kw)
            real, s = sim.locate(path)
            if not s:
                sim.guard(path, name)
            return o[name](real, *a, **kw)
        return f

    return dict(open=os_open, write=os_write, close=os_close, fsync=os_fsync,
                fdatasync=os_fsync, sync=os_sync,
                replace=two('replace', 'rename', 'ren'),
                rename=two('rename', 'rename', 'ren'),
                link=two('link', 'link', 'link'),
                symlink=two('symlink', 'link', 'symlink'),
                remove=one('remove', 'unlink', 'unl'),
                unlink=one('unlink', 'unlink', 'unl'),
                mkdir=one('mkdir', 'mkdir', 'mkdir'),
                rmdir=one('rmdir', 'rmdir', 'rmdir'),
                truncate=os_truncate, ftruncate=os_ftruncate,
                scandir=os_scandir, listdir=os_listdir, kill=os_kill,
                sendfile=no_fast, copy_file_range=no_fast,
                pwrite=os_pwrite, writev=os_writev, urandom=os_urandom,
                uname=os_uname, getpid=os_getpid,
                utime=path_op('utime'), chmod=path_op('chmod'))


# ---------------------------------------------------------------- screen
class SimStdout(io.TextIOBase):
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, sink, kind):
        self.sink = sink
        self.kind = kind
        self.name = '<sim>'

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str')
        if self.kind == 'out' and SIM is not None:
            SIM.ev('out', len(s))
        self.sink.append(s)
        return len(s)

    def writable(self):
        return True

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


# ---------------------------------------------------------------- install
def install(runtime):
    """Patch the interpreter of this (forked) process."""
    global SIM
    import shutil
    import socket
    import tempfile
    if not ORIG:
        _save_originals()
    SIM = runtime
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    io.open_code = _io.open_code = lambda p: ORIG['open'](p, 'rb')
    for k, f in _mk_os().items():
        setattr(os, k, f)
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_HAS_FCOPYFILE'):
        shutil._HAS_FCOPYFILE = False
    # importing modules must not become events
    import importlib._bootstrap_external as be
    posix_real = _RealPosix()
    be._os = posix_real
    _patch_numpy()
    from . import clock as _clock
    runtime.clock = _clock.install(runtime, runtime.spec.get('clock') or {})
    _patch_host(runtime)
    _patch_random(runtime)
    from . import smtp as _smtp
    runtime.mail = _smtp.install(runtime, runtime.spec.get('mail') or {})
    from . import solver as _solver
    _solver.install(runtime)
    tempfile.tempdir = os.path.join(runtime.root, 'tmp')
    tempfile._name_sequence = _Names(runtime)
    os.environ['TMPDIR'] = tempfile.tempdir
    sys.stdout = SimStdout(runtime.out, 'out')
    sys.stderr = SimStdout(runtime.err, 'err')
    sys.__stdout__ = sys.stdout
    sys.__stderr__ = sys.stderr
    answers = list(runtime.spec.get('input', ()))

    def sim_input(prompt=''):
        runtime.ev('input', prompt)
        runtime.out.append(str(prompt))
        if answers:
            return answers.pop(0)
        raise EOFError('EOF when reading a line')
    builtins.input = sim_input


class _RealPosix:
    """What the import system uses: the real calls, never simulated."""

    def __init__(self):
        import posix
        for n in dir(posix):
            setattr(self, n, getattr(posix, n))
        for k, f in ORIG['os'].items():
            if hasattr(self, k):
                setattr(self, k, f)


class _Names:
    def __init__(self, rt):
        self.rt = rt
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return 'sim%d_%d' % (self.rt.procid, self.i)


def _patch_numpy():
    import numpy as np
    import numpy.lib.format as fmt
    fmt.isfileobj = lambda f: False
    import numpy.lib._datasource as ds
    fo = ds._file_openers
    fo._load()
    fo._file_openers[None] = sim_open


def _patch_host(rt):
    import platform
    import socket
    host = rt.spec.get('host', {})
    name = host.get('name', 'simhost')

    def gethostname():
        rt.ev('host', 'name')
        return name
    socket.gethostname = gethostname
    socket.getfqdn = lambda n='': (name or 'localhost') + '.sim'
    platform.node = gethostname
    try:
        import psutil
        mem = list(host.get('mem', ()))
        real_process = psutil.Process

        class MemInfo(tuple):
            pass

        class FakeProcess:
            def __init__(self, pid=None):
                rt.ev('host', 'process')
                self.pid = pid

            def memory_info(self):
                rt.ev('host', 'mem')
                v = mem.pop(0) if mem else 123456789
                if mem == [] and host.get('mem'):
                    mem.extend(host['mem'])
                import collections
                T = collections.namedtuple('pmem', 'rss vms shared text lib data dirty')
                return T(v, 2 * v, 0, 0, 0, v, 0)
            memory_full_info = memory_info

            def __getattr__(self, n):
                return getattr(real_process(ORIG['os']['getpid']()), n)
        psutil.Process = FakeProcess
    except ImportError:
        pass


class SimRandomState:
    """Stands in for numpy's generators: every draw is an event."""

    def __init__(self, rt):
        self.rt = rt
        self.src = rt.spec.get('random') or {}
        from .streams import Stream
        self.stream = Stream(self.src, rt.rng)

    def _u(self):
        self.rt.ev('rand')
        return self.stream.next()

    def _arr(self, size, f):
        import numpy as np
        if size is None or size == ():
            return f()
        if isinstance(size, (int, np.integer)):
            size = (int(size),)
        n = 1
        for s in size:
            n *= int(s)
        return np.array([f() for _ in range(n)]).reshape(size)

    def rand(self, *size):
        return self._arr(size, self._u)

    def random(self, size=None, *a, **k):
        return self._arr(size, self._u)
    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        import numpy as np
        if size is None:
            shape = np.broadcast(np.asarray(low), np.asarray(high)).shape
            size = shape if shape else None
        u = self._arr(size, self._u)
        return low + (np.asarray(high) - np.asarray(low)) * u if size is not None \
            else low + (high - low) * u

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        return self._arr(size, lambda: int(low + (high - low) * self._u()))
    integers = randint

    def _gauss(self):
        import math
        u = max(1e-300, self._u())
        return math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * self._u())

    def randn(self, *size):
        return self._arr(size, self._gauss)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._arr(size, self._gauss)

    def standard_normal(self, size=None, *a, **k):
        return self._arr(size, self._gauss)

    def seed(self, *a):
        pass

    def shuffle(self, x, axis=0):
        for i in range(len(x) - 1, 0, -1):
            j = int(self._u() * (i + 1))
            a, b = x[i].copy() if hasattr(x[i], 'copy') else x[i], \
                x[j].copy() if hasattr(x[j], 'copy') else x[j]
            x[i], x[j] = b, a

    def permutation(self, x):
        import numpy as np
        y = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.shuffle(y)
        return y

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        a = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if not replace:
            return self.permutation(a)[:size]
        return self._arr(size, lambda: a[int(self._u() * len(a))])


def _patch_random(rt):
    import numpy as np
    rs = SimRandomState(rt)
    rt.random = rs
    for n in ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform',
              'randint', 'randn', 'normal', 'standard_normal', 'seed',
              'shuffle', 'permutation', 'choice'):
        setattr(np.random, n, getattr(rs, n))
    np.random.default_rng = lambda *a, **k: rs
    np.random.RandomState = lambda *a, **k: rs
    random.seed(rt.spec.get('rngseed', 'x'))

    def rnd():
        return rs._u()
    random.random = rnd
    random.uniform = lambda a, b: a + (b - a) * rnd()
