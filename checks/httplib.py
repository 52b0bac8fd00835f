"""The HTTP client against a scripted origin server on a simulated network.

Real: pyslet.http.client (Client, Connection, ClientRequest, ClientResponse),
messages, params, grammar, auth, streams.  Stub: TCP, select, name look-up
and the origin server, which speaks HTTP through the independent parser in
sim/httpref.py and records every request it is given and every response it
makes.
"""
import io
import ssl          # noqa: before the patch of socket.socket
import socket

from sim import core, httpref, net
from sim.core import Violation

net.install()

from pyslet.http import client as http      # noqa
from pyslet.http import auth, messages      # noqa
from pyslet.streams import Pipe             # noqa

import logging                              # noqa
logging.disable(logging.CRITICAL)

HOSTS = [('h1', 80), ('h2', 8080)]


def pattern(tag, n):
    """n bytes no other tag would give."""
    unit = ('<%s>' % tag).encode('ascii')
    return (unit * (n // len(unit) + 1))[:n]


class Delivery(object):

    """A request, or the start of one, as the origin server saw it."""

    def __init__(self, rid, conn, at, msg):
        self.rid = rid
        self.conn = conn
        self.at = at
        self.msg = msg
        self.body = b''
        self.complete = False


class Made(object):

    """A response the origin server made."""

    def __init__(self, tok, rid, status):
        self.tok = tok
        self.rid = rid
        self.status = status
        self.body = b''
        self.framing = None
        self.headers = {}
        self.sent = False           # every byte handed to the network
        self.conn = None
        self.head = False


class Origin(object):

    """A scripted origin server."""

    ACTIONS = ('ok', 'interim', 'early', 'drop', 'dropbody', 'cut', 'reset',
               'stall', 'auth', 'redirect', 'surplus', 'close', 'error')

    def __init__(self, w, nw, weights, **cfg):
        self.w = w
        self.net = nw
        self.weights = weights
        self.deliveries = {}        # rid -> [Delivery]
        self.made = {}              # tok -> Made
        self.asked = {}             # rid -> number of resends asked for
        self.broken = {}            # rid -> deliveries not answered
        self.ntok = 0
        self.quiet_after = cfg.get('quiet_after')
        self.keep_alive = cfg.get('keep_alive', 30.0)
        self.big = cfg.get('big', 300)
        self.stall_for = cfg.get('stall_for', 40.0)
        self.cut_on = cfg.get('cut_on', ())
        self.pipelined = cfg.get('pipelined', True)
        self.serving = {}
        self.listeners = []
        self.conns = []             # (conn id, [rid in order])

    def start(self):
        for host, port in HOSTS:
            s = socket.socket()
            s.bind(('', port))
            s.listen(5)
            self.listeners.append(s)
            self.w.spawn(lambda s=s: self.accept(s), 'accept%d' % port,
                         daemon=True)

    def accept(self, s):
        while True:
            try:
                c, addr = s.accept()
            except OSError:
                return
            self.w.spawn(lambda c=c: self.handle(c),
                         'srv%d' % c.conn.id, daemon=True)

    # ------------------------------------------------------------ reading
    def more(self, s, buf, timeout=None):
        s.settimeout(timeout or self.keep_alive)
        try:
            d = s.recv(4096)
        except (socket.timeout, OSError):
            return False
        if not d:
            return False
        buf += d
        return True

    def handle(self, s):
        buf = bytearray()
        try:
            while self.one(s, buf):
                pass
        except OSError:
            pass
        try:
            s.close()
        except OSError:
            pass

    def one(self, s, buf):
        w = self.w
        while True:
            try:
                m = httpref.parse(buf)
            except httpref.Bad as e:
                raise Violation('bad-request', 'the client sent bytes that '
                                'are not a request: %s: %r' % (
                                    e, bytes(buf[:120])))
            if m is not None:
                break
            if not self.more(s, buf):
                return False
        rid = m.get('X-Rid')
        rid = rid.decode('ascii') if rid else None
        if rid is None or not m.target.startswith(
                b'/' + rid.encode('ascii')):
            raise Violation('mixed-request', 'request line %r carries '
                            'headers of %r' % (m.start, rid))
        d = Delivery(rid, s.conn.id, w.now, m)
        self.deliveries.setdefault(rid, []).append(d)
        d.body = m.body
        d.complete = m.complete
        w.log('server', s.conn.id, rid, m.start.decode('ascii'))
        act = self.choose(m, rid)
        w.log('action', s.conn.id, rid, act)
        return getattr(self, 'do_' + act)(s, buf, m, d)

    def choose(self, m, rid):
        w = self.w
        if self.quiet_after is not None and w.now >= self.quiet_after:
            return 'ok'
        return w.weighted([(self.weights.get(a, 0), a)
                           for a in self.ACTIONS], 'srv')

    def take(self, s, buf, m, d):
        """Read the rest of the request and remove it from the buffer."""
        while not m.complete:
            if not self.more(s, buf):
                d.body = m.body
                return False
            try:
                m = httpref.parse(buf)
            except httpref.Bad as e:
                raise Violation('bad-request', 'the client sent a malformed '
                                'request: %s' % e)
            d.body = m.body
        d.complete = True
        del buf[:m.size]
        return True

    # ------------------------------------------------------------ answering
    def make(self, d, status, headers=(), size=None, framing=None):
        """Build one response; returns (Made, bytes)."""
        w = self.w
        self.ntok += 1
        r = Made('t%d' % self.ntok, d.rid, status)
        r.conn = d.conn
        if size is None:
            size = w.pick((0, 1, 17, 90, self.big), 'srv') if \
                w.chance(0.5, 'srv') else 1 + w.draw(self.big, 'srv')
        method = d.msg.method
        nobody = method == b'HEAD' or status in (204, 304) or status < 200
        r.headers = dict(headers)
        hs = [(b'X-Tok', r.tok.encode()), (b'X-Rid', d.rid.encode())]
        body = pattern('%s %s' % (d.rid, r.tok), size)
        hs += list(headers)
        if framing is None:
            framing = w.weighted([(4, 'length'), (4, 'chunked'),
                                  (1, 'close')], 'srv')
        old = d.msg.version == b'HTTP/1.0'
        if old and framing == 'chunked':
            framing = 'length'
        r.framing = framing
        close = False
        if framing == 'length':
            if not (nobody and status in (204,)) and status >= 200:
                hs.append((b'Content-Length', b'%d' % len(body)))
            payload = body
        elif framing == 'chunked':
            if status >= 200 and status != 204:
                hs.append((b'Transfer-Encoding', b'chunked'))
            sizes = [1 + w.draw(40, 'srv')
                     for i in range(w.draw(4, 'srv'))]
            payload = httpref.chunked(
                body, sizes, ext=b';x=1' if w.chance(0.2, 'srv') else b'',
                trailers=[(b'X-Trailer', b'yes')]
                if w.chance(0.2, 'srv') else ())
        else:
            payload = body
            close = not nobody
        if nobody:
            payload = b''
            body = b''
        if old and not close:
            close = True
        if close or (w.chance(0.08, 'srv') and status >= 200):
            hs.append((b'Connection', b'close'))
            close = True
        v = b'HTTP/1.0' if old and w.chance(0.5, 'srv') else b'HTTP/1.1'
        r.body = body
        self.made[r.tok] = r
        r.close = close
        r.bytes = httpref.head(
            v + b' %d %s' % (status, w.pick((b'OK', b'Some reason', b''),
                                            'srv')), hs) + payload
        r.headlen = len(r.bytes) - len(payload)
        return r

    def send(self, s, data, slow=None):
        w = self.w
        s.settimeout(60.0)
        if slow is None:
            slow = w.chance(0.15, 'srv')
        pos = 0
        while pos < len(data):
            n = len(data) - pos
            if slow:
                n = 1 + w.draw(n, 'srv')
            s.sendall(data[pos:pos + n])
            pos += n
            if slow and pos < len(data):
                w.sleep(0.01 * w.draw(30, 'srv'))

    def finish(self, s, r, d):
        r.head = True
        self.send(s, r.bytes)
        r.sent = True
        if r.close:
            if self.w.chance(0.5, 'srv'):
                s.shutdown(socket.SHUT_WR)
                self.drain(s)
            return False
        return True

    def drain(self, s):
        buf = bytearray()
        while self.more(s, buf, 5.0):
            del buf[:]

    def expected(self, s, m):
        """Honour Expect: 100-continue now and then."""
        if m.get('Expect') and not m.complete:
            if self.w.chance(0.7, 'srv'):
                self.w.probe('sent-100')
                self.send(s, b'HTTP/1.1 100 Continue\r\n\r\n')

    def status_ok(self, d):
        return self.w.pick((200, 200, 201, 200, 204), 'srv')

    def do_ok(self, s, buf, m, d):
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        return self.finish(s, self.make(d, self.status_ok(d)), d)

    def do_close(self, s, buf, m, d):
        """A complete answer, then an unannounced close."""
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        self.finish(s, self.make(d, 200, framing='length'), d)
        self.w.sleep(0.001 * self.w.draw(20, 'srv'))
        return False

    def do_error(self, s, buf, m, d):
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        return self.finish(s, self.make(
            d, self.w.pick((400, 404, 409, 500, 503), 'srv')), d)

    def do_interim(self, s, buf, m, d):
        w = self.w
        w.probe('interim')
        for i in range(1 + w.draw(3, 'srv')):
            st = w.pick((100, 102, 103), 'srv')
            self.send(s, b'HTTP/1.1 %d Interim\r\n%s\r\n' % (
                st, b'X-Tok: interim\r\n' if w.chance(0.5, 'srv') else b''))
            if w.chance(0.3, 'srv'):
                w.sleep(0.3)
        return self.do_ok(s, buf, m, d)

    def do_early(self, s, buf, m, d):
        """A final answer before the request body has been read."""
        w = self.w
        if m.complete:
            return self.do_error(s, buf, m, d)
        w.probe('early-response')
        status = w.pick((400, 413, 417, 500, 200), 'srv')
        r = self.make(d, status, framing=w.pick(('length', 'chunked'),
                                                'srv'))
        if w.chance(0.5, 'srv'):
            # the server keeps the connection and reads what follows
            if not r.close:
                self.finish(s, r, d)
                return self.take(s, buf, m, d)
        r.head = True
        self.send(s, r.bytes)
        r.sent = True
        if w.chance(0.6, 'srv'):
            s.shutdown(socket.SHUT_WR)
            self.drain(s)
        else:
            self.w.sleep(0.5)
        return False

    def lost(self, d):
        self.broken[d.rid] = self.broken.get(d.rid, 0) + 1

    def do_drop(self, s, buf, m, d):
        """Hang up as soon as the head of the request is there."""
        self.w.count_fault('server-hangs-up')
        self.lost(d)
        return False

    def do_dropbody(self, s, buf, m, d):
        self.expected(s, m)
        self.take(s, buf, m, d)
        self.w.count_fault('server-hangs-up')
        self.lost(d)
        return False

    def do_cut(self, s, buf, m, d):
        """Part of an answer, then the end of the connection."""
        w = self.w
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        r = self.make(d, 200, framing=w.pick(('length', 'chunked'), 'srv'))
        n = w.draw(len(r.bytes), 'srv') if r.bytes else 0
        w.count_fault('response-cut')
        self.lost(d)
        r.head = n >= r.headlen
        r.cut = n
        self.send(s, r.bytes[:n])
        return False

    def do_reset(self, s, buf, m, d):
        w = self.w
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        r = self.make(d, 200)
        n = w.draw(len(r.bytes), 'srv')
        w.count_fault('server-resets')
        self.lost(d)
        r.head = n >= r.headlen
        r.cut = n
        self.send(s, r.bytes[:n])
        s.tx.push_reset()
        return False

    def do_stall(self, s, buf, m, d):
        w = self.w
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        r = self.make(d, 200)
        n = w.draw(len(r.bytes), 'srv') if w.chance(0.5, 'srv') else 0
        w.count_fault('server-stalls')
        self.send(s, r.bytes[:n], slow=False)
        r.head = n >= r.headlen
        self.lost(d)
        w.sleep(self.stall_for * (0.2 + w.draw(100, 'srv') / 60.0))
        self.send(s, r.bytes[n:], slow=False)
        r.head = True
        r.sent = True
        return not r.close

    def do_auth(self, s, buf, m, d):
        w = self.w
        if m.get('Authorization'):
            return self.do_ok(s, buf, m, d)
        w.probe('challenge')
        if not self.take(s, buf, m, d):
            return False
        chal = [(b'WWW-Authenticate', w.pick((
            b'Basic realm="R"', b'Basic realm="R"', b'Basic realm="R"',
            b'Basic', b'Digest realm="R", nonce="1"', b'=,bad'), 'srv'))]
        self.asked[d.rid] = self.asked.get(d.rid, 0) + 1
        return self.finish(s, self.make(d, 401, chal), d)

    def do_redirect(self, s, buf, m, d):
        w = self.w
        w.probe('redirect')
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        host, port = w.pick(HOSTS, 'srv')
        if self.asked.get(d.rid, 0) >= 3:
            return self.finish(s, self.make(d, 200), d)
        loc = '/%s/r%d' % (d.rid, self.asked.get(d.rid, 0))
        if w.chance(0.7, 'srv'):
            loc = 'http://%s%s%s' % (
                host, '' if port == 80 else ':%d' % port, loc)
        elif w.chance(0.3, 'srv'):
            loc = w.pick(('http:///x', 'ftp://h1/x', 'mailto:x', 'x y',
                          'http://h1:abc/', 'http://u:p@h1/x'), 'srv')
        self.asked[d.rid] = self.asked.get(d.rid, 0) + 1
        return self.finish(s, self.make(
            d, w.pick((301, 302, 303, 307), 'srv'),
            [(b'Location', loc.encode())]), d)

    def do_surplus(self, s, buf, m, d):
        """An answer followed by bytes nobody asked for."""
        w = self.w
        self.expected(s, m)
        if not self.take(s, buf, m, d):
            return False
        r = self.make(d, 200, framing=w.pick(('length', 'chunked'), 'srv'))
        w.count_fault('surplus-bytes')
        r.head = True
        junk = w.pick((b'\r\n', b'junk') if self.pipelined else (
            b'\r\n', b'junk', b'HTTP/1.1 200 OK\r\nX-Tok: surplus\r\n'
            b'X-Rid: none\r\nContent-Length: 3\r\n\r\nbad'), 'srv')
        self.send(s, r.bytes + junk, slow=False)
        r.sent = True
        self.surplus = True
        w.sleep(1.0)
        return False


class SlowSource(io.RawIOBase):

    """A seekable request body that reads short."""

    def __init__(self, w, data, block=False):
        io.RawIOBase.__init__(self)
        self.w = w
        self.data = data
        self.pos = 0
        self.block = block

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        self.pos = (offset if whence == 0 else
                    self.pos + offset if whence == 1 else
                    len(self.data) + offset)
        return self.pos

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        n = min(n, len(self.data) - self.pos)
        if n > 1:
            n = 1 + self.w.draw(n)
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class Sink(io.BytesIO):

    """A response body that takes what it is given."""


class Req(http.ClientRequest):

    """A request that remembers what happened to it."""

    def __init__(self, rid, url, **kw):
        self.rid = rid
        self.attempts = []          # (time, connection id)
        self.finishes = []          # statuses of finished()
        self.asked_resend = 0
        super(Req, self).__init__(url, **kw)
        self.set_header('X-Rid', rid)

    def connect(self, connection, send_pos):
        self.attempts.append((core.WORLD.now, connection.id))
        return super(Req, self).connect(connection, send_pos)

    def resend(self, url=None):
        self.asked_resend += 1
        return super(Req, self).resend(url)

    def finished(self):
        self.finishes.append(self.status)
        core.WORLD.log('finished', self.rid, self.status)
        return super(Req, self).finished()


class DrivenConnection(http.Connection):

    """Notices when two threads drive one connection."""

    owner = None

    def __init__(self, *args, **kw):
        super(DrivenConnection, self).__init__(*args, **kw)
        core.WORLD.tags.setdefault('connections', []).append(self)

    def connection_task(self):
        self.owner = core.WORLD.current
        return super(DrivenConnection, self).connection_task()

    def new_socket(self):
        core.WORLD.tags.setdefault('connecting', {})[
            core.WORLD.current] = self
        return super(DrivenConnection, self).new_socket()


def watch_io(w):
    """Called for every transfer on a socket."""
    def hook(sock):
        if sock.role != 'client':
            return
        me = w.current
        for c in w.tags.get('connections', ()):
            if c.socket is sock:
                if c.owner is not None and c.owner is not me and \
                        c.owner.state not in (core.DONE, core.DEAD):
                    raise Violation(
                        'shared-connection', 'thread %s uses the socket of '
                        'connection %s, which thread %s is driving' % (
                            me.name, c.id, c.owner.name))
                return
    w.net.io_hook = hook


class SimClient(http.Client):
    ConnectionClass = DrivenConnection


NETS = {
    'calm': {},
    'frag': dict(frag=1, p_partial=0.3, window=400),
    'bytes': dict(frag=2, p_partial=0.5, window=90, p_eagain=0.1),
    'slow': dict(latency=(0.01, 0.5), frag=1, p_stall=0.02,
                 stall=(0.5, 3.0)),
    'spurious': dict(p_spurious=0.2, p_eagain=0.2, frag=1),
    'cutting': dict(p_reset=0.35, p_fin=0.2, frag=1),
    'dead': dict(p_blackhole=0.3, frag=1),
    'refuse': dict(p_refuse=0.3, p_dns=0.2),
    'storm': dict(p_reset=0.2, p_fin=0.1, p_blackhole=0.1, p_refuse=0.1,
                  p_dns=0.05, frag=1, p_partial=0.3, p_eagain=0.1,
                  p_spurious=0.05, p_stall=0.02, window=300),
}

SERVERS = {
    'good': dict(ok=10, error=2, interim=1),
    'chatty': dict(ok=3, interim=4, early=3, error=2, surplus=1),
    'asking': dict(ok=3, auth=4, redirect=4, error=1),
    'flaky': dict(ok=5, drop=2, dropbody=2, cut=2, reset=2, close=3,
                  surplus=1),
    'stalling': dict(ok=4, stall=2, interim=1),
    'all': dict(ok=8, interim=2, early=2, drop=1, dropbody=1, cut=1,
                reset=1, stall=1, auth=1, redirect=1, surplus=1, close=1,
                error=1),
}


class Traffic(object):

    """One run: a client shared by threads, an origin server, faults."""

    def __init__(self, w, nets, servers, methods, **cfg):
        self.w = w
        self.cfg = cfg
        self.netname = w.pick(nets)
        self.srvname = w.pick(servers)
        pr = net.Profile(**NETS[self.netname])
        self.timeout = w.pick(cfg.get('timeouts', (2.0, 6.0, 20.0)))
        if w.chance(0.3):
            # faults stop at some time
            pr.off_after = w.now + w.between(0, 30)
        self.net = net.Net(w, pr)
        self.pipelined = w.chance(0.6)
        self.origin = Origin(
            w, self.net, SERVERS[self.srvname], pipelined=self.pipelined,
            quiet_after=pr.off_after, keep_alive=w.pick((1.0, 5.0, 60.0)),
            big=w.pick((100, 300, 300, 2000 if pr.frag else 20000)), stall_for=self.timeout)
        self.origin.start()
        self.net.hosts = set(h for h, p in HOSTS)
        watch_io(w)
        self.methods = methods
        self.maxconn = w.pick(cfg.get('maxconn', (1, 2, 3, 100)))
        self.client = SimClient(max_connections=self.maxconn,
                                timeout=self.timeout)
        self.reqs = {}
        self.busy = []
        self.onehost = w.chance(0.4)
        self.nthreads = 1
        if w.chance(0.6):
            for host, port in HOSTS:
                c = auth.BasicCredentials()
                c.userid = 'user'
                c.password = 'pass'
                c.protectionSpace = http.uri.URI.from_octets(
                    'http://%s%s' % (host, '' if port == 80 else
                                     ':%d' % port)).get_canonical_root()
                if w.chance(0.4):
                    c.realm = w.pick(('R', 'R', 'Other'))
                self.client.add_credentials(c)

    # ------------------------------------------------------------ requests
    def request(self, tname, i):
        w = self.w
        rid = '%s.%d' % (tname, i)
        host, port = w.pick(HOSTS) if not self.onehost and w.chance(0.4) \
            else HOSTS[0]
        method = w.pick(self.methods)
        kw = {}
        body = b''
        if method in ('POST', 'PUT'):
            n = w.pick((0, 1, 30, 300, 600 if self.net.profile.frag else 9000))
            body = pattern('body ' + rid, n)
            form = w.draw(4)
            if form == 0:
                kw['entity_body'] = body
            elif form == 1:
                kw['entity_body'] = io.BytesIO(body)
            elif form == 2:
                kw['entity_body'] = SlowSource(w, body)
            else:
                f = io.BytesIO(b'prefix' + body)
                f.seek(6)
                kw['entity_body'] = f
        sink = None
        if w.chance(0.3):
            sink = Sink()
            kw['res_body'] = sink
        if w.chance(0.1):
            kw['protocol'] = 'HTTP/1.0'
        if w.chance(0.15):
            kw['auto_redirect'] = False
        kw['max_retries'] = w.pick((3, 3, 1, 5))
        r = Req(rid, 'http://%s%s/%s' % (
            host, '' if port == 80 else ':%d' % port, rid),
            method=method, **kw)
        r.expect_body = body
        r.sink = sink
        r.queued = r.refused = False
        r.first_method = method
        r.max_retries_given = r.max_retries
        if body and w.chance(0.3) and r.protocol >= \
                http.params.HTTP_1p1:
            r.set_expect_continue()
        if w.chance(0.1) and body:
            r.set_header('Transfer-Encoding', 'chunked')
        self.reqs[rid] = r
        return r

    def pool_wait(self):
        # waiting for ever while holding another connection is the caller's
        # own dead-lock, so it does not happen here
        if self.onehost or self.maxconn >= 2 * self.nthreads:
            return self.w.pick((None, None, 30.0))
        return self.w.pick((0, 0.5, 5.0, 30.0))

    def worker(self, tname, n):
        w = self.w
        i = 0
        while i < n:
            k = min(n - i, w.pick((1, 2, 2, 4)) if self.pipelined else 1)
            batch = []
            for j in range(k):
                r = self.request(tname, i)
                i += 1
                wait = self.pool_wait()
                t0 = w.now
                try:
                    self.client.queue_request(r, wait)
                    r.queued = True
                    batch.append(r)
                except http.RequestManagerBusy:
                    r.refused = True
                    self.busy.append((wait, w.now - t0, self.client))
                    w.probe('pool-busy')
                except http.ConnectionClosed:
                    r.refused = True
                    w.probe('client-closed')
                    return
                if w.chance(0.3):
                    self.client.thread_task(0)
            t0 = w.now
            if w.chance(0.6):
                self.client.thread_loop(w.pick((60, 5, 0.5)))
            else:
                while self.client.thread_task(w.pick((0, 0.05, 1, 60))):
                    w.sleep(w.pick((0.01, 0.1, 0.5)))
            self.after_batch(tname, batch, w.now - t0)
            if w.chance(0.3):
                w.sleep(w.pick((0.01, 2.0, 7.0)))

    def limit(self, batch):
        t = self.timeout
        n = sum((r.max_retries + 5) for r in batch) or 1
        return n * (4 * t + 70) + 120

    def after_batch(self, tname, batch, took):
        for r in batch:
            r.done_at = self.w.now
        if took > self.limit(batch):
            raise Violation('slow', '%d requests took %.1f s with a '
                            'time-out of %.1f s' % (
                                len(batch), took, self.timeout))

    def run(self, nthreads, nreq):
        w = self.w
        self.nthreads = nthreads
        ts = [w.spawn(lambda n=n: self.worker('w%d' % n, nreq),
                      'w%d' % n) for n in range(nthreads)]
        self.extra()
        for t in ts:
            if not w.join(t, 200000):
                raise Violation('hang', 'requests still unfinished: ' +
                                w.blocked_desc())
        w.quiet += 1
        self.check()
        w.tags['no_drain'] = True

    def extra(self):
        pass

    # ------------------------------------------------------------ oracles
    def check(self):
        for rid in sorted(self.reqs):
            r = self.reqs[rid]
            if r.queued:
                for f in self.cfg['oracles']:
                    f(self, r)
        for f in self.cfg.get('finally', ()):
            f(self)


def own_response(t, r):
    """C06: the outcome of a request is its own response or an error."""
    o = t.origin
    if r.status and r.error is not None:
        raise Violation('status-and-error', 'request %s ended with status '
                        '%s and error %r' % (r.rid, r.status, r.error))
    if not r.status:
        t.w.probe('failed')
        if r.error is None and not getattr(r, 'killed', False):
            raise Violation('silent-failure', 'request %s ended with no '
                            'status and no error' % r.rid)
        return
    t.w.probe('succeeded')
    res = r.response
    if 100 <= r.status <= 199:
        raise Violation('interim-final', 'request %s ended with the '
                        'interim status %d' % (r.rid, r.status))
    tok = res.get_header('X-Tok')
    tok = tok.decode('ascii') if tok else None
    m = o.made.get(tok)
    if m is None:
        raise Violation('foreign-response', 'request %s ended with status '
                        '%s from no response of the server (X-Tok %r)' % (
                            r.rid, r.status, tok))
    if m.rid != r.rid or res.get_header('X-Rid') != r.rid.encode('ascii'):
        raise Violation('foreign-response', 'request %s got the response to '
                        'request %s' % (r.rid, m.rid))
    if m.status != r.status or res.status != r.status:
        raise Violation('status', 'request %s ended with status %s, the '
                        'server said %d' % (r.rid, r.status, m.status))
    body = r.sink.getvalue() if r.sink is not None else r.res_body
    if body != m.body:
        cut = [c for c in t.net.conns if c.id == m.conn and any(
            k[0] == 'fin' for k in c.cuts)]
        if m.framing == 'close' and cut and m.body.startswith(body):
            t.w.probe('undetectable-cut')
            return
        raise Violation('body', 'request %s, status %d: body of %d bytes '
                        'is not the %d bytes (%s framing) of the server: '
                        '%r against %r' % (
                            r.rid, r.status, len(body), len(m.body),
                            m.framing, body[:60], m.body[:60]))


def safe_repeat(t, r):
    """C07: what the server received."""
    o = t.origin
    ds = o.deliveries.get(r.rid, [])
    asked = min(o.asked.get(r.rid, 0), r.asked_resend)
    for d in ds:
        if d.msg.method.decode('ascii') != r.first_method:
            raise Violation('method-changed', 'request %s sent as %s' % (
                r.rid, d.msg.method))
        b = r.expect_body
        if d.complete:
            if d.body != b:
                raise Violation('request-body', 'request %s: the server '
                                'received a body of %d bytes, not the %d '
                                'given: %r' % (r.rid, len(d.body), len(b),
                                               d.body[:80]))
        elif not b.startswith(d.body):
            raise Violation('request-body', 'request %s: the server '
                            'received %r' % (r.rid, d.body[:80]))
    if len(ds) > 1:
        t.w.probe('repeated')
    if r.first_method == 'POST' and len(ds) > 1 + asked:
        raise Violation('unsafe-repeat', 'POST %s was delivered %d times '
                        'to the server, which asked for %d repeats' % (
                            r.rid, len(ds), asked))
    if len(ds) > r.max_retries_given + 1 + asked:
        raise Violation('too-many', '%s %s was delivered %d times, with '
                        'max_retries %d and %d repeats asked for' % (
                            r.first_method, r.rid, len(ds),
                            r.max_retries_given, asked))


def retried(t, r):
    """C07: an idempotent request is not given up too early."""
    if r.status or r.first_method == 'POST':
        return
    need = r.max_retries_given + 1
    if len(r.attempts) >= need:
        t.w.probe('gave-up')
        return
    if r.asked_resend:
        return
    tname = r.rid.split('.')[0]
    for q in t.reqs.values():
        if q is not r and q.rid.startswith(tname + '.') and not q.status:
            return      # giving up one request gives up those behind it
    ds = t.origin.deliveries.get(r.rid, [])
    for d in ds:
        c = t.net.conns[d.conn - 1]
        if any(k[0] == 'fin' for k in c.cuts):
            return
    for m in t.origin.made.values():
        if m.rid == r.rid and (m.sent or getattr(m, 'cut', 0)):
            return                  # a response had begun
    raise Violation('gave-up-early', '%s %s failed (%s) after %d attempts, '
                    'max_retries is %d and no response had begun' % (
                        r.first_method, r.rid, r.error, len(r.attempts),
                        r.max_retries_given))
