"""Running simulated processes: fork, install the seams, execute the program,
hand the record over, die."""
import errno
import gc
import hashlib
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback
import types

from . import seams

REPO = os.environ.get('VERIF_REPO', '/repo')
SD = os.path.join(REPO, 'stokesian_dynamics')
FRS = os.path.join(REPO, 'find_resistance_scalars')

CODE = {}


def code_for(path):
    """Compile a script of the current working tree once per check run."""
    c = CODE.get(path)
    if c is None:
        with open(path, 'rb') as f:
            c = compile(f.read(), path, 'exec', dont_inherit=True)
        CODE[path] = c
    return c


class HarnessError(Exception):
    pass


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = b'R' + struct.pack('<Q', len(data)) + data
    w = seams.ORIG['os']['write'] if seams.ORIG else os.write
    mv = memoryview(data)
    while mv:
        n = w(fd, mv[:1 << 16])
        mv = mv[n:]


def _child(spec, root, wfd, rfd, code):
    """Never returns."""
    try:
        # a crash of the simulator itself must be visible
        resource.setrlimit(resource.RLIMIT_CPU,
                           (spec.get('cpu', 90), spec.get('cpu', 90) + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        gate = None
        if rfd is not None:
            o_read, o_write = os.read, os.write

            def gate(kind, detail):
                msg = pickle.dumps((kind, detail), protocol=4)
                o_write(wfd, b'E' + struct.pack('<Q', len(msg)) + msg)
                g = o_read(rfd, 1)
                if g == b'K':
                    rt.fired.append(('kill', kind, rt.n))
                    rt.die('killed')
                if g == b'P':
                    rt.fired.append(('power', kind, rt.n))
                    rt.die('power')
                if g == b'':
                    seams.ORIG['os']['_exit'](9)
        cwd = os.path.join(root, spec.get('cwd', ''))
        os.chdir(cwd)
        rt = seams.Runtime(spec, root, lambda rec: _send(wfd, rec), gate)

        def on_cpu(sig, frame):
            rt.die('cpu')
        signal.signal(signal.SIGXCPU, on_cpu)
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        seams.install(rt)
        if spec.get('gui') is not None:
            from . import gui
            rt.gui = gui.install(rt, spec['gui'])
        for m in spec.get('monitors', ()):
            from . import monitors
            monitors.attach(rt, m)
        sys.argv = [spec['script']] + [str(a) for a in spec.get('argv', ())]
        sys.path[0:0] = [os.path.dirname(spec['script'])]
        for p in spec.get('syspath', ()):
            sys.path.insert(0, p)
        status = 0
    except BaseException:
        try:
            _send(wfd, dict(status='harness', err=traceback.format_exc(), n=0,
                            kinds=[], details=[], fired=[], journal=[],
                            inos={}, out='', notes=[], escapes=[]))
        finally:
            os._exit(4)
    try:
        try:
            main = types.ModuleType('__main__')
            main.__file__ = spec['script']
            main.__builtins__ = __builtins__
            sys.modules['__main__'] = main
            if spec.get('settings') is not None:
                import settings
                for k, v in spec['settings'].items():
                    if not hasattr(settings, k):
                        rt.notes.append(('unknown-setting', k))
                    setattr(settings, k, v)
            if spec.get('pre'):
                spec['pre'](rt)
            if callable(code):
                code(rt)
            else:
                exec(code, main.__dict__)
        except SystemExit as e:
            status = e.code
            if status is None:
                status = 0
            elif not isinstance(status, int):
                rt.err.append(str(status) + '\n')
                status = 1
        except KeyboardInterrupt:
            rt.err.append('KeyboardInterrupt\n')
            status = 130
        except BaseException as e:
            rt.err.append(traceback.format_exc())
            status = 1
        # what an interpreter does on its way out
        try:
            import threading
            for t in threading.enumerate():
                if t is not threading.current_thread() and not t.daemon:
                    t.join(5)
        except KeyboardInterrupt:
            pass
        try:
            import atexit
            if spec.get('atexit', True):
                atexit._run_exitfuncs()
        except BaseException:
            pass
        sys.last_value = sys.last_traceback = sys.last_type = None
        try:
            main.__dict__.clear()
            del main
            gc.collect()
        except KeyboardInterrupt:
            pass
        rt.die('exit', status)
    except BaseException:
        try:
            rec = rt.record('harness')
            rec['err'] += traceback.format_exc()
            _send(wfd, rec)
        finally:
            seams.ORIG['os']['_exit'](4)


class Running:
    """A simulated process that has been started."""

    def __init__(self, spec, root, code, gated):
        r, w = os.pipe()
        self.g_r = self.g_w = None
        if gated:
            self.g_r, self.g_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            if gated:
                os.close(self.g_w)
            _child(spec, root, w, self.g_r, code)
            os._exit(5)
        os.close(w)
        if gated:
            os.close(self.g_r)
        self.fd = r
        self.buf = b''
        self.rec = None
        self.t0 = time.monotonic()

    def _fill(self, deadline):
        left = deadline - time.monotonic()
        if left <= 0:
            raise TimeoutError
        ok, _, _ = select.select([self.fd], [], [], left)
        if not ok:
            raise TimeoutError
        d = os.read(self.fd, 1 << 20)
        if not d:
            return False
        self.buf += d
        return True

    def next(self, wall=300):
        """Next message: ('E', (kind, detail)) or ('R', record)."""
        deadline = time.monotonic() + wall
        while True:
            if len(self.buf) >= 9:
                n = struct.unpack('<Q', self.buf[1:9])[0]
                if len(self.buf) >= 9 + n:
                    t = self.buf[:1].decode()
                    m = pickle.loads(self.buf[9:9 + n])
                    self.buf = self.buf[9 + n:]
                    return t, m
            try:
                if not self._fill(deadline):
                    self.finish()
                    raise HarnessError('simulated process died without a record (status %r)' % (self.st,))
            except TimeoutError:
                self.kill()
                return 'R', dict(status='wall', code=None, n=0, kinds=[],
                                 details=[], fired=[], journal=[], inos=None,
                                 out='', err='', notes=[], escapes=[],
                                 clock=None, mail=None, gui=None)

    def grant(self, what=b'G'):
        os.write(self.g_w, what)

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.finish()

    def finish(self):
        for fd in (self.fd, self.g_w):
            if fd is not None:
                try:
                    os.close(fd)
                except OSError:
                    pass
        self.fd = self.g_w = None
        try:
            _, self.st = os.waitpid(self.pid, 0)
        except ChildProcessError:
            self.st = None

    def wait(self, wall=300):
        t, m = self.next(wall)
        while t != 'R':
            self.grant()
            t, m = self.next(wall)
        if self.fd is not None:
            self.finish()
        if m['status'] == 'harness':
            raise HarnessError(m['err'])
        return m


# ------------------------------------------------------------------ the world
class World:
    """The machine on which simulated processes run: a scratch folder, what of
    it is durable, and the sequence of processes."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.reset()

    def reset(self, files=None, dirs=('output', 'tmp')):
        if os.path.isdir(self.root):
            for n in os.listdir(self.root):
                p = os.path.join(self.root, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    for dp, dn, fn in os.walk(p):
                        os.chmod(dp, 0o755)
                    shutil.rmtree(p)
                else:
                    os.unlink(p)
        os.makedirs(self.root, exist_ok=True)
        for d in dirs:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        self.journal = []
        self.inos = {}
        self.procs = 0
        self.runs = []
        for p, data in (files or {}).items():
            self.put(p, data)
        self.commit()

    def put(self, path, data, mtime=None):
        p = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
        if mtime is not None:
            os.utime(p, (mtime, mtime))

    def make(self, path, what):
        """Something that is not a file: 'dir', 'link' (dangling), 'loop'."""
        p = os.path.join(self.root, path)
        if what == 'dir':
            os.makedirs(p, exist_ok=True)
        elif what == 'link':
            os.symlink('nowhere-to-be-found', p)
        elif what == 'loop':
            os.symlink(os.path.basename(p), p)

    def remove(self, path):
        os.unlink(os.path.join(self.root, path))

    def files(self):
        r = {}
        for dp, dn, fn in os.walk(self.root):
            for f in fn:
                p = os.path.join(dp, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                try:
                    with open(p, 'rb') as fh:
                        r[os.path.relpath(p, self.root)] = fh.read()
                except OSError:
                    r[os.path.relpath(p, self.root)] = None
        return r

    def commit(self):
        """Everything now on disk is durable."""
        self.base = self.files()
        self.journal = []
        self.inos = {p: ('base', i) for i, p in enumerate(sorted(self.base))}
        self.base_inos = dict(self.inos)

    # -- processes
    def start(self, spec, code, gated=False):
        spec = dict(spec)
        self.procs += 1
        spec['procid'] = self.procs
        spec['inos'] = self.inos
        spec.setdefault('redirect', [(os.path.join(SD, 'output'), '/output')])
        return Running(spec, self.root, code, gated)

    def run(self, spec, code, wall=300):
        r = self.start(spec, code)
        rec = r.wait(wall)
        self.absorb(rec)
        return rec

    def absorb(self, rec):
        self.journal += rec['journal']
        if rec['inos'] is not None:
            self.inos = rec['inos']
        self.runs.append((rec['status'], rec['code']))

    # -- power loss
    def power_cut(self, choose, journal=None):
        """Compute the disk after power came back and put it in place.
        `choose(options)` picks from a list, so outcomes can be drawn or
        enumerated."""
        files = self.after_power_cut(choose, journal)
        self.restore(files)
        return files

    def restore(self, files):
        cur = self.files()
        for p in cur:
            if p not in files:
                os.unlink(os.path.join(self.root, p))
        for p, d in files.items():
            if cur.get(p) != d and d is not None:
                self.put(p, d)
        self.commit()

    def after_power_cut(self, choose, journal=None):
        j = self.journal if journal is None else journal
        last_sync = max([i for i, op in enumerate(j) if op[0] == 'sync'], default=-1)
        ns = [i for i, op in enumerate(j) if op[0] in
              ('create', 'ren', 'unl', 'link', 'symlink', 'mkdir', 'rmdir')]
        free = [i for i in ns if i > last_sync]
        # how much of the metadata journal survives
        cut = choose('names', [len(j)] + free)       # keep ns ops with index < cut
        # contents per inode
        content = {ino: bytearray(self.base[p]) for p, ino in self.base_inos.items()
                   if self.base.get(p) is not None}
        data_ops = {}
        synced_upto = {}
        for i, op in enumerate(j):
            if op[0] == 'create':
                content.setdefault(op[2], bytearray())
            elif op[0] in ('w', 'trunc'):
                data_ops.setdefault(op[1], []).append(i)
            elif op[0] == 'sync':
                if op[1] == '*':
                    for k in list(content) + list(data_ops):
                        synced_upto[k] = i
                else:
                    synced_upto[op[1]] = i
        for ino in sorted(data_ops, key=repr):
            ops = data_ops[ino]
            content.setdefault(ino, bytearray())
            s = synced_upto.get(ino, -1)
            firm = [i for i in ops if i < s]
            loose = [i for i in ops if i > s]
            for i in firm:
                _apply(content[ino], j[i])
            if not loose:
                continue
            how = choose('data', ['all', 'none', 'prefix', 'zero'])
            if how == 'all':
                for i in loose:
                    _apply(content[ino], j[i])
            elif how == 'prefix':
                k = choose('prefix', list(range(len(loose))))
                for i in loose[:k]:
                    _apply(content[ino], j[i])
                op = j[loose[k]]
                if op[0] == 'w':
                    n = choose('torn', [0, len(op[3]) // 2, max(0, len(op[3]) - 1)])
                    _apply(content[ino], ('w', op[1], op[2], op[3][:n]))
            elif how == 'zero':
                for i in loose:
                    op = j[i]
                    _apply(content[ino], op if op[0] == 'trunc' else
                           ('w', op[1], op[2], b'\0' * len(op[3])))
        names = dict(self.base_inos)
        for i in ns:
            if i >= cut:
                break
            op = j[i]
            if op[0] == 'create':
                names[op[1]] = op[2]
            elif op[0] == 'unl':
                names.pop(op[1], None)
            elif op[0] == 'ren':
                a, b = op[1], op[2]
                if a in names:
                    names[b] = names.pop(a)
                for k in [k for k in names if k.startswith(a + '/')]:
                    names[b + k[len(a):]] = names.pop(k)
            elif op[0] == 'link':
                if op[1] in names:
                    names[op[2]] = names[op[1]]
        return {p: bytes(content.get(ino, b'')) for p, ino in names.items()}


def _apply(buf, op):
    if op[0] == 'trunc':
        n = op[2]
        if n < len(buf):
            del buf[n:]
        else:
            buf.extend(b'\0' * (n - len(buf)))
    else:
        off, data = op[2], op[3]
        if off > len(buf):
            buf.extend(b'\0' * (off - len(buf)))
        buf[off:off + len(data)] = data


def digest(rec):
    """Identity of an execution: every event, in order, with its file."""
    h = hashlib.sha256()
    for k, d in zip(rec['kinds'], rec['details']):
        h.update(repr((k, d if k not in ('out', 'clock', 'rand', 'host') else 0)).encode())
    h.update(repr((rec['status'], rec['code'], rec['fired'])).encode())
    return h.hexdigest()[:16]
