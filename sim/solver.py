"""Stand-in for external programs started by a simulated process.

The two-sphere solver is answered from recordings of the real one
(data/solver.json).  Every start is an event of kind 'solver', and the plan can
make it fail.  The video encoder takes the frames it is sent and writes a file
with their digests.  Anything else a program tries to start is not started and
is recorded as an escape."""
import errno
import hashlib
import io
import json
import os
import shlex
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
_recorded = None

# how a run of the solver can fail: (exit status as seen through a shell,
# what of the output appears)
FAILURES = {
    'missing': (127, 'none'),
    'error': (2, 'none'),
    'late error': (2, 'all'),
    'crash': (139, 'part'),
    'killed': (137, 'none'),
    'late killed': (137, 'all'),
    'message': (0, 'words'),
    'silent': (0, 'none'),
    'few': (0, 'part'),
}


def recorded():
    global _recorded
    if _recorded is None:
        with open(os.path.join(HERE, 'data', 'solver.json')) as f:
            d = json.load(f)
        _recorded = d['answers']
    return _recorded


def answer(words):
    """Output of the solver for its arguments: separation, radii, case."""
    try:
        s, a, b = (float(x) for x in words[:3])
        case = words[3]
    except (ValueError, IndexError):
        return None
    if abs(a - 1) > 1e-9:
        return None
    for lam, sd, answers in recorded():
        if abs(lam - b) < 1e-7 and abs(.5 * (1 + lam) * sd - s) < 1e-7:
            if case not in answers:
                return None
            row = [0.0] * 22
            for k, v in answers[case].items():
                row[int(k)] = v
            return ''.join('  % .16E' % x for x in row) + '\n'
    return None


class Encoder:
    """The encoder's side of the pipe.  spec: how = None, missing, refuse, dies
    (after 'at' frames), late (takes everything, then fails)."""

    def __init__(self, rt, words, spec):
        self.rt = rt
        self.spec = spec
        self.how = spec.get('how')
        self.closed = False
        self.buf = bytearray()
        self.frames = []                   # raw frames, if they are wanted
        self.digests = []
        self.gone = self.how == 'refuse'
        self.target = words[-1]
        size = words[words.index('-s') + 1] if '-s' in words else '0x0'
        self.size = tuple(int(x) for x in size.split('x'))
        rt.encoders.append(self)

    def write(self, data):
        if self.closed:
            raise ValueError('write to closed file')
        data = bytes(data)
        self.rt.ev('encoder', 'data', len(data))
        if self.how == 'dies' and len(self.digests) >= self.spec.get('at', 0):
            self.gone = True
        if self.gone:
            self.fired()
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.buf += data
        n = self.size[0] * self.size[1] * 4
        while n and len(self.buf) >= n:
            frame = bytes(self.buf[:n])
            del self.buf[:n]
            self.digests.append(hashlib.sha256(frame).hexdigest()[:16])
            if self.spec.get('keep'):
                self.frames.append(frame)
        return len(data)

    def fired(self):
        f = ('encoder ' + self.how, 'encoder', self.rt.n - 1)
        if not any(x[0] == f[0] for x in self.rt.fired):
            self.rt.fired.append(f)

    def end(self):
        """End of input; the exit status."""
        if not self.closed:
            self.closed = True
            self.rt.ev('encoder', 'end')
            if self.how == 'refuse':
                self.fired()
                self.code = 1
            elif self.how == 'dies' and (self.gone or len(self.digests) >= self.spec.get('at', 0)):
                self.fired()
                self.code = -9
            else:
                self.code = 0
                if self.how == 'late':
                    self.fired()
                    self.code = 1
            if self.how != 'refuse':
                with open(self.target, 'wb') as f:
                    f.write(('%dx%d\n' % self.size + '\n'.join(self.digests) + '\n').encode())
        return self.code

    def flush(self):
        pass

    def writable(self):
        return True

    def seekable(self):
        return False

    def seek(self, *a):
        raise io.UnsupportedOperation('seek')

    tell = seek

    def close(self):
        self.end()

    def summary(self):
        return dict(target=self.target, digests=self.digests, left=len(self.buf),
                    ended=self.closed, code=getattr(self, 'code', None), size=self.size)


def install(rt, orig_popen=subprocess.Popen):
    known = rt.spec.get('solver')
    encoder = rt.spec.get('encoder')
    rt.encoders = []

    class Popen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                     preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                     universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                     start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                     encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
            self.args = args
            self.pid = 41000 + rt.n
            self.returncode = None
            words = shlex.split(os.fsdecode(args)) if isinstance(args, (str, bytes)) else \
                [os.fsdecode(a) for a in args]
            self.enc = None
            if encoder is not None and words and os.path.basename(words[0]) in ('ffmpeg', 'ffmpeg.exe'):
                rt.ev('encoder', 'start')
                if encoder.get('how') == 'missing':
                    rt.fired.append(('encoder missing', 'encoder', rt.n - 1))
                    raise FileNotFoundError(errno.ENOENT, 'No such file or directory', words[0])
                self.enc = self.stdin = Encoder(rt, words, encoder)
                self.text = bool(text or universal_newlines or encoding or errors)
                new = io.StringIO if self.text else io.BytesIO
                self.stdout = new() if stdout == subprocess.PIPE else None
                self.stderr = new() if stderr == subprocess.PIPE else None
                return
            if not known or not words or not words[0].endswith('lamb.exe'):
                rt.escapes.append(('popen', ' '.join(words)))
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', words[0] if words else '')
            act = rt.ev('solver', ' '.join(words[1:]))
            how = act['how'] if act is not None else None
            full = answer(words[1:])
            if full is None:
                # the real one would compute this; there is no recording of it
                rt.notes.append(('solver-unknown', words[1:]))
                how = how or 'error'
            self.code, what = FAILURES[how] if how else (0, 'all')
            if how == 'missing' and not shell:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', words[0])
            if how in ('killed', 'late killed', 'crash') and not shell:
                self.code = 128 - self.code
            full = full or ''
            out = {'none': '', 'all': full, 'part': full[:len(full) // 2].rsplit(' ', 1)[0],
                   'words': ' Warning: did not converge\n'}[what]
            self.out = out.encode()
            self.text = bool(text or universal_newlines or encoding or errors)
            if self.text:
                self.out = out
            new = io.StringIO if self.text else io.BytesIO
            self.stdin = new() if stdin == subprocess.PIPE else None
            self.stdout = self.stderr = None
            if stdout == subprocess.PIPE:
                self.stdout = new(self.out)
            elif hasattr(stdout, 'write'):
                stdout.write(out if isinstance(stdout, io.TextIOBase) else out.encode())
                stdout.flush()
            elif isinstance(stdout, int) and stdout >= 0:
                os.write(stdout, out.encode())
            elif stdout is None:
                rt.out.append(out)
            if stderr == subprocess.PIPE:
                self.stderr = new()

        def communicate(self, input=None, timeout=None):
            if self.enc is not None:
                if input:
                    try:
                        self.enc.write(input)
                    except BrokenPipeError:
                        pass
                self.code = self.enc.end()
            self.returncode = self.code
            e = ('' if self.text else b'') if self.stderr is not None else None
            return (self.stdout.read() if self.stdout is not None else None), e

        def wait(self, timeout=None):
            if self.enc is not None:
                self.code = self.enc.end()
            self.returncode = self.code
            return self.code

        def poll(self):
            if self.enc is not None and not self.enc.closed and not self.enc.gone:
                return None
            return self.wait()

        def kill(self):
            pass
        terminate = kill

        def send_signal(self, s):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

        def __class_getitem__(cls, k):
            return cls

    subprocess.Popen = Popen
    if encoder is not None:
        import shutil
        which = shutil.which

        def which_(cmd, *a, **k):
            if os.path.basename(os.fsdecode(cmd)) != 'ffmpeg':
                return which(cmd, *a, **k)
            return None if encoder.get('how') == 'missing' else '/usr/bin/ffmpeg'
        shutil.which = which_

    def system(cmd):
        try:
            p = Popen(cmd, shell=True)
        except FileNotFoundError:
            return 127 << 8
        return p.wait() << 8
    os.system = system
