"""A simulated mail server behind socket.create_connection and TLS wrapping.

Every connect, send, reply and TLS handshake is a 'mail' event; a planned
action {'do': 'mail', 'how': ...} makes it fail:
  refuse, timeout, reset, eof, unreach, dns   connection-level failures
  4xx / 5xx / garbage                         the reply of the server
"""
import io
import os
import socket
import ssl


class Server:
    def __init__(self, rt, spec):
        self.rt = rt
        self.spec = spec
        self.log = []             # (what, detail)
        self.accepted = []        # messages for which DATA ended with 250
        self.attempts = 0
        self.hung = False

    def summary(self):
        return dict(log=self.log, accepted=self.accepted, attempts=self.attempts)


class Sock:
    def __init__(self, srv, timeout):
        self.srv = srv
        self.timeout = timeout
        self.inbuf = b''
        self.out = b''
        self.state = 'cmd'
        self.tls = False
        self.authed = False
        self.closed = False
        self.eof = False
        self.msg = b''
        self.auth_step = None
        self.mail_from = None
        self.rcpt = []
        self.instead = None

    # -- client side
    def event(self, what, detail=''):
        s = self.srv
        self.instead = None
        act = s.rt.ev('mail', what)
        s.log.append((what, detail))
        if act is not None:
            self.fail(act, what)
        return None

    def fail(self, act, what):
        how = act.get('how', 'reset')
        if how == 'refuse':
            raise ConnectionRefusedError(111, 'Connection refused')
        if how == 'unreach':
            raise OSError(101, 'Network is unreachable')
        if how == 'dns':
            raise socket.gaierror(-2, 'Name or service not known')
        if how == 'reset':
            self.eof = True
            raise ConnectionResetError(104, 'Connection reset by peer')
        if how == 'pipe':
            self.eof = True
            raise BrokenPipeError(32, 'Broken pipe')
        if how == 'timeout':
            if self.timeout is None:
                # nobody answers and nobody gives up: the run never ends
                self.srv.hung = True
                self.srv.rt.notes.append(('hang', what))
                self.srv.rt.die('hang')
            raise socket.timeout('timed out')
        if how == 'eof':
            self.eof = True
            self.out = b''
            return
        if how == 'tls':
            raise ssl.SSLError(1, '[SSL] handshake failure')
        if what == 'tls':
            raise ssl.SSLError(1, '[SSL] wrong version number')
        self.out = {'garbage': b'\xff\xfe garbage\r\n', '4xx': b'421 busy\r\n',
                    '5xx': b'554 no\r\n'}[how]
        self.instead = self.out

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return ('192.0.2.1', 587)

    def sendall(self, data, *a):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        if self.eof:
            raise BrokenPipeError(32, 'Broken pipe')
        self.event('send', data[:60].decode('latin-1'))
        if self.eof:
            return
        self.inbuf += data
        n = len(self.srv.accepted)
        self.serve()
        if self.instead:
            # the server answers this to what was sent
            self.out = self.instead
            self.state = 'cmd'
            self.auth_step = None
            if len(self.srv.accepted) > n:
                self.unaccept()

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def makefile(self, mode='rb', *a, **k):
        return SockFile(self)

    def recv(self, n, *a):
        self.event('recv')
        r, self.out = self.out[:n], self.out[n:]
        return r

    def close(self):
        self.closed = True

    def shutdown(self, how):
        pass

    def fileno(self):
        return -1

    # -- server side
    def say(self, s):
        self.out += s.encode('latin-1') + b'\r\n'

    def serve(self):
        while True:
            if self.state == 'data':
                i = self.inbuf.find(b'\r\n.\r\n')
                if self.inbuf.startswith(b'.\r\n'):
                    body, self.inbuf = b'', self.inbuf[3:]
                elif i >= 0:
                    body, self.inbuf = self.inbuf[:i + 2], self.inbuf[i + 5:]
                else:
                    return
                self.state = 'cmd'
                self.pending = body
                self.say('250 2.0.0 OK queued')
                self.srv.accepted.append(dict(
                    frm=self.mail_from, to=list(self.rcpt),
                    data=body.decode('latin-1'), tls=self.tls, auth=self.authed))
                self.accept_index = len(self.srv.accepted) - 1
                continue
            i = self.inbuf.find(b'\r\n')
            if i < 0:
                return
            line, self.inbuf = self.inbuf[:i].decode('latin-1'), self.inbuf[i + 2:]
            up = line.upper()
            if self.auth_step == 'plain':
                self.auth_step = None
                self.authed = True
                self.say('235 2.7.0 Accepted')
            elif self.auth_step == 'user':
                self.auth_step = 'pass'
                self.say('334 UGFzc3dvcmQ6')
            elif self.auth_step == 'pass':
                self.auth_step = None
                self.authed = True
                self.say('235 2.7.0 Accepted')
            elif up.startswith('EHLO') or up.startswith('HELO'):
                if up.startswith('EHLO'):
                    self.say('250-mx.sim at your service')
                    self.say('250-SIZE 35882577')
                    self.say('250-8BITMIME')
                    if not self.tls:
                        self.say('250-STARTTLS')
                    else:
                        self.say('250-AUTH LOGIN PLAIN')
                    self.say('250 SMTPUTF8')
                else:
                    self.say('250 mx.sim')
            elif up.startswith('STARTTLS'):
                self.say('220 2.0.0 Ready to start TLS')
            elif up.startswith('AUTH PLAIN'):
                if len(line.split()) > 2:
                    self.authed = True
                    self.say('235 2.7.0 Accepted')
                else:
                    self.auth_step = 'plain'
                    self.say('334 ')
            elif up.startswith('AUTH LOGIN'):
                self.auth_step = 'pass' if len(line.split()) > 2 else 'user'
                self.say('334 VXNlcm5hbWU6')
            elif up.startswith('MAIL FROM'):
                self.mail_from = line[10:]
                self.rcpt = []
                self.say('250 2.1.0 OK')
            elif up.startswith('RCPT TO'):
                self.rcpt.append(line[8:])
                self.say('250 2.1.5 OK')
            elif up.startswith('DATA'):
                self.state = 'data'
                self.say('354 Go ahead')
            elif up.startswith('RSET'):
                self.say('250 2.1.5 Flushed')
            elif up.startswith('NOOP'):
                self.say('250 2.0.0 OK')
            elif up.startswith('QUIT'):
                self.say('221 2.0.0 closing connection')
                self.eof = True
            else:
                self.say('502 5.5.1 Unrecognized command')

    def unaccept(self):
        """The reply to the end of the data was lost or negative."""
        if getattr(self, 'accept_index', None) is not None:
            m = self.srv.accepted[self.accept_index]
            m['reply_lost'] = True
            if self.out[:1] in (b'4', b'5'):
                m['refused'] = True


class SockFile(io.RawIOBase):
    def __init__(self, sock):
        self.s = sock

    def readable(self):
        return True

    def readline(self, limit=-1):
        s = self.s
        had = s.out
        try:
            s.event('reply', had.split(b'\r\n')[0][:40].decode('latin-1'))
        except BaseException:
            if had.startswith(b'250 2.0.0 OK queued'):
                s.unaccept()
            raise
        if had.startswith(b'250 2.0.0 OK queued') and s.out != had:
            s.unaccept()
        if not s.out:
            if not s.eof:
                # nothing to read and the server waits for us: deadlock
                if s.timeout is None:
                    s.srv.rt.notes.append(('hang', 'reply'))
                    s.srv.rt.die('hang')
                raise socket.timeout('timed out')
            return b''
        i = s.out.find(b'\n')
        if i < 0:
            r, s.out = s.out, b''
        else:
            r, s.out = s.out[:i + 1], s.out[i + 1:]
        if limit >= 0:
            s.out = r[limit:] + s.out
            r = r[:limit]
        return r

    def close(self):
        pass


def look(rt):
    """What is in the output folder just now."""
    from . import seams
    d = os.path.join(rt.root, 'output')
    out = {}
    for n in sorted(seams.ORIG['os']['listdir'](d)):
        p = os.path.join(d, n)
        if n.endswith('.npz') and not os.path.isdir(p):
            with seams.ORIG['open'](p, 'rb') as f:
                out['output/' + n] = f.read()
    return out


def install(rt, spec):
    srv = Server(rt, spec)

    def create_connection(address, timeout=socket._GLOBAL_DEFAULT_TIMEOUT,
                          source_address=None, **kw):
        if timeout is socket._GLOBAL_DEFAULT_TIMEOUT:
            timeout = socket.getdefaulttimeout()
        srv.attempts += 1
        s = Sock(srv, timeout)
        srv.log.append(('attempt', str(address)))
        if rt.spec.get('mail_watch'):
            rt.notes.append(('mail_attempt', len(rt.journal), look(rt)))
        s.event('connect', str(address))
        if not s.instead and not s.eof:
            s.say('220 mx.sim ESMTP')
        return s
    socket.create_connection = create_connection
    real_wrap = ssl.SSLContext.wrap_socket

    def wrap_socket(self, sock, *a, **k):
        if isinstance(sock, Sock):
            sock.event('tls')
            sock.tls = True
            return sock
        return real_wrap(self, sock, *a, **k)
    ssl.SSLContext.wrap_socket = wrap_socket
    return srv
