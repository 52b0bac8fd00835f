"""The HTTP server under scripted clients on a simulated network.

Real: pyslet.http.server (Server, Connection, ServerRequest, ServerResponse),
socketserver's threading mix-in, messages, params, grammar, streams.  Stub:
TCP and select, the clients, which build and parse HTTP with sim/httpref.py,
and the WSGI application, which follows a plan made for each request and
records what it was given.
"""
import io
import ssl          # noqa: before the patch of socket.socket
import socket

from sim import core, httpref, net
from sim.core import Violation

net.install()

from pyslet.http import server as srv       # noqa

import logging                              # noqa
logging.disable(logging.CRITICAL)

from .httplib import NETS, pattern          # noqa


class AppError(Exception):
    pass


class Plan(object):

    """What the application does with one request."""

    FAILURES = ('before', 'started', 'mid', 'no_start', 'stall')

    def __init__(self, w, tok, cfg):
        self.tok = tok
        self.status = w.weighted((
            (8, '200 OK'), (1, '201 Created'), (1, '404 Not Found'),
            (1, '204 No Content'), (1, '304 Not Modified'),
            (1, '500 Broken as planned'), (1, '302 Found')))
        code = self.code = int(self.status[:3])
        self.fail = None
        if cfg.get('p_fail') and w.chance(cfg['p_fail']):
            self.fail = w.pick(cfg.get('failures', self.FAILURES[:4]))
        n = w.pick((0, 1, 10, 300, 3000, 20000))
        n = min(n, cfg.get('big', n))
        if code in (204, 304):
            n = 0
        self.body = pattern('%s:%d' % (tok, n), n)
        self.style = w.pick(('list1', 'list', 'gen', 'iter', 'write',
                             'mixed'))
        k = w.between(1, 5)
        cuts = sorted(w.draw(n + 1) for i in range(k - 1))
        if self.style == 'list1':
            cuts = []
        self.blocks = []
        pos = 0
        for c in cuts + [n]:
            self.blocks.append(self.body[pos:c])
            pos = c
        if n == 0 and w.chance(0.5):
            self.blocks = []
        self.length = n and w.chance(0.3)
        self.type = w.pick((None, 'text/plain', 'application/octet-stream'))
        self.extra = [('X-Tag', tok)] + [
            ('X-%s' % c, '%s %d' % (tok, i))
            for i, c in enumerate('AB'[:w.draw(3)])]
        self.read = w.pick(('all', 'all', 'all', 'chunks', 'lines', 'iter',
                            'late', 'none', 'some', 'twice'))
        self.fail_at = w.draw(len(self.blocks) + 1)
        self.delays = w.pick(cfg.get('app_delays', (
            (0, 0), (0, 0), (0, 0.1), (0.3, 0.05))))
        self.stall = cfg.get('stall', 60.0)


class Call(object):

    """One call of the application."""

    def __init__(self, tok, at):
        self.tok = tok
        self.at = at
        self.env = None
        self.body = b''
        self.eof = False            # the application saw the end of the body
        self.read_error = None
        self.finished = None        # ran to its planned end
        self.error = None


class App(object):

    def __init__(self, w, cfg):
        self.w = w
        self.cfg = cfg
        self.plans = {}
        self.calls = []
        self.peak = 0
        self.running = 0

    def plan(self, tok):
        if tok not in self.plans:
            self.plans[tok] = Plan(self.w, tok, self.cfg)
        return self.plans[tok]

    def __call__(self, environ, start_response):
        w = self.w
        tok = environ.get('PATH_INFO', '').lstrip('/').split('/')[0]
        c = Call(tok, w.now)
        self.calls.append(c)
        c.env = dict((k, v) for k, v in environ.items()
                     if isinstance(v, str) or v is None)
        w.log('app', tok, environ.get('REQUEST_METHOD'))
        p = self.plans.get(tok)
        if p is None:
            start_response('404 Unplanned', [('X-Tag', tok)])
            c.finished = w.now
            return [b'unplanned']
        try:
            return self.run(p, c, environ, start_response)
        except AppError:
            raise
        except Exception as e:
            c.error = e
            raise

    def consume(self, p, c, inp):
        w = self.w
        how = p.read
        try:
            if how == 'none':
                return
            if how == 'some':
                c.body += inp.read(10)
                return
            if how in ('all', 'late', 'twice'):
                c.body += inp.read()
                if how == 'twice':
                    d = inp.read()
                    if d:
                        raise Violation('read-past-end', 'data after the '
                                        'end of the request body')
            elif how == 'chunks':
                while True:
                    d = inp.read(w.pick((1, 7, 100, 4096)))
                    if not d:
                        break
                    c.body += d
            elif how == 'lines':
                while True:
                    d = inp.readline()
                    if not d:
                        break
                    c.body += d
            elif how == 'iter':
                for d in inp:
                    c.body += d
            c.eof = True
        except (IOError, ValueError) as e:
            c.read_error = e
            raise

    def run(self, p, c, environ, start_response):
        w = self.w
        inp = environ['wsgi.input']
        if p.delays[0]:
            w.sleep(p.delays[0])
        if p.fail == 'before':
            raise AppError('planned: before start_response')
        if p.fail == 'stall':
            w.count_fault('app-stalls')
            w.sleep(p.stall)
        if p.read != 'late':
            self.consume(p, c, inp)
        hs = list(p.extra)
        if p.type:
            hs.append(('Content-Type', p.type))
        if p.length:
            hs.append(('Content-Length', str(len(p.body))))
        write = None
        if p.fail != 'no_start':
            write = start_response(p.status, hs)
            c.started = True
        if p.fail == 'started':
            raise AppError('planned: before the first block')
        if p.style in ('write', 'mixed') and write is not None:
            k = len(p.blocks)
            if p.style == 'mixed':
                k = (k + 1) // 2
            for i in range(k):
                if p.fail == 'mid' and i >= p.fail_at:
                    raise AppError('planned: during the response')
                if p.delays[1]:
                    w.sleep(p.delays[1])
                write(p.blocks[i])
            rest = p.blocks[k:]
        else:
            rest = p.blocks
            k = 0
        if p.style in ('list', 'list1', 'write') and p.fail != 'mid' and \
                p.read != 'late':
            c.finished = w.now
            return list(rest)
        return Rest(self, p, c, inp, rest, k)


class Rest(object):

    """The iterable the application returns, with a close method."""

    def __init__(self, app, p, c, inp, blocks, k):
        self.app = app
        self.p = p
        self.c = c
        self.inp = inp
        self.blocks = blocks
        self.k = k
        self.closed = 0

    def __iter__(self):
        w = self.app.w
        p = self.p
        c = self.c
        for i, b in enumerate(self.blocks):
            if p.fail == 'mid' and i + self.k >= p.fail_at:
                raise AppError('planned: during the response')
            if p.delays[1]:
                w.sleep(p.delays[1])
            yield b
        if p.fail == 'mid':
            raise AppError('planned: after the last block')
        if p.read == 'late':
            self.app.consume(p, c, self.inp)
        c.finished = w.now

    def close(self):
        self.closed += 1


class SimServer(srv.Server):

    def __init__(self, *args, **kwargs):
        self.errors = []
        srv.Server.__init__(self, *args, **kwargs)

    def handle_error(self, request, client_address):
        import sys
        self.errors.append(sys.exc_info()[1])


class Req(object):

    """A request a client sends."""

    def __init__(self, w, tok, cfg):
        self.tok = tok
        self.method = w.weighted(((4, 'GET'), (4, 'POST'), (1, 'HEAD'),
                                  (2, 'PUT'), (1, 'DELETE')))
        self.version = b'1.1'
        if w.chance(cfg.get('p_10', 0.1)):
            self.version = b'1.0'
        path = '/' + tok + w.pick(('', '', '/a%20b', '/caf%C3%A9',
                                   '/latin%E9', '/x/y;p=1', '/%2Fslash'))
        query = w.pick((None, None, '', 'a=1&b=%20x', 'q=/?'))
        self.path = path
        self.query = query
        self.target = path + ('' if query is None else '?' + query)
        self.host = b'localhost'
        if w.chance(0.1):
            self.target = 'http://localhost' + self.target
        hs = []
        if self.version == b'1.1' or w.chance(0.5):
            hs.append((w.pick((b'Host', b'host')), self.host))
        for i in range(w.draw(3)):
            hs.append((b'X-H%d' % i, b'%s value %d' % (
                tok.encode('ascii'), i)))
        if w.chance(0.15):
            hs.append((b'X-H0', b'again'))
        self.close = w.chance(cfg.get('p_close', 0.1))
        if self.close:
            hs.append((b'Connection', w.pick((b'close', b'Close'))))
        self.body = b''
        self.framing = 'none'
        if self.method in ('POST', 'PUT') and w.chance(0.9) or \
                w.chance(0.05):
            n = w.pick((0, 1, 20, 700, 5000, 30000))
            n = min(n, cfg.get('big', n))
            self.body = pattern('%s:body%d\n' % (tok, n), n)
            self.framing = w.pick(('length', 'chunked')) \
                if self.version == b'1.1' else 'length'
        self.ctype = None
        if self.framing != 'none' and w.chance(0.5):
            self.ctype = b'application/x-sim'
            hs.append((b'Content-Type', self.ctype))
        self.expect = False
        if self.framing != 'none' and self.version == b'1.1' and \
                w.chance(cfg.get('p_expect', 0.15)):
            self.expect = True
            hs.append((b'Expect', b'100-continue'))
        if self.framing == 'length':
            hs.append((b'Content-Length', b'%d' % len(self.body)))
            self.wire_body = self.body
        elif self.framing == 'chunked':
            hs.append((b'Transfer-Encoding', w.pick((b'chunked',
                                                     b'Chunked'))))
            sizes = [w.pick((1, 5, 16, 100, 1000, 4096))
                     for i in range(w.draw(8))]
            self.wire_body = httpref.chunked(
                self.body, sizes,
                w.pick((b'', b'', b';x=1', b'; name="v"')),
                w.pick(((), (), ((b'X-Trail', b't'),))))
        else:
            self.wire_body = b''
        if w.chance(0.5):
            k = w.draw(len(hs) + 1)
            hs = hs[k:] + hs[:k]
        self.headers = hs
        self.head = httpref.head(b' '.join((
            self.method.encode('ascii'), self.target.encode('ascii'),
            b'HTTP/' + self.version)), hs)
        if w.chance(0.05):
            self.head = b'\r\n' + self.head
        self.bad = None             # status a malformed request may get
        self.bad_body = False
        self.sent_all = None        # time the last byte was sent
        self.started = None

    @property
    def wire(self):
        return self.head + self.wire_body


BAD = ('line', 'version', 'header', 'chunk', 'coding', 'long', 'host',
       'length')


def spoil(w, r):
    """Make the request malformed in one of several ways."""
    k = r.bad = w.pick(BAD)
    if k == 'line':
        r.head = w.pick((b'GET\r\n\r\n', b'\x00\x01\x02\r\n\r\n',
                         b'GET /%s\r\n\r\n' % r.tok.encode('ascii'),
                         b'G(T /%s HTTP/1.1\r\n\r\n' %
                         r.tok.encode('ascii')))
        r.wire_body = b''
        r.method = 'GET'
        r.expect = False
    elif k == 'version':
        r.head = b'GET /%s HTTQ/1.1\r\n\r\n' % r.tok.encode('ascii')
        r.wire_body = b''
        r.method = 'GET'
        r.expect = False
    elif k == 'header':
        i = r.head.index(b'\r\n', 2) + 2
        r.head = r.head[:i] + w.pick((
            b'no colon here\r\n', b': no name\r\n',
            b'Bad Name: x\r\n')) + r.head[i:]
    elif k == 'long':
        i = r.head.index(b'\r\n', 2) + 2
        r.head = r.head[:i] + b'X-Long: ' + b'y' * 20000 + b'\r\n' + \
            r.head[i:]
    elif k == 'host':
        r.head = b'GET /%s HTTP/1.1\r\nHost: elsewhere\r\n\r\n' % \
            r.tok.encode('ascii')
        r.wire_body = b''
        r.method = 'GET'
        r.expect = False
        r.framing = 'none'
    elif k in ('chunk', 'coding', 'length'):
        te = {'chunk': b'Transfer-Encoding: chunked',
              'coding': b'Transfer-Encoding: rot13',
              'length': b'Content-Length: 12x'}[k]
        r.head = b'POST /%s HTTP/1.1\r\nHost: localhost\r\n%s\r\n\r\n' % (
            r.tok.encode('ascii'), te)
        r.wire_body = b''
        r.method = 'POST'
        r.expect = False
        if k == 'chunk':
            r.bad_body = True
            good = httpref.chunked(b'data' * 5, (7,))[:-5]
            r.wire_body = good + w.pick((
                b'zz\r\nxx\r\n', b'5\r\nabcdefgh\r\n0\r\n\r\n',
                b'-3\r\nabc\r\n0\r\n\r\n'))
    return r


class Client(object):

    """A scripted client: one connection, one sender and one reader."""

    def __init__(self, w, net_, name, reqs, cfg, at=0.0):
        self.w = w
        self.net = net_
        self.name = name
        self.reqs = reqs
        self.cfg = cfg
        self.at = at
        self.buf = bytearray()
        self.eof = False            # the server ended the connection
        self.reset = False
        self.ended_at = None
        self.done = False           # this side is through
        self.sock = None
        self.conn = None
        self.pipeline = w.chance(cfg.get('p_pipeline', 0.5))
        self.pauses = w.pick(cfg.get('pauses', (0, 0, 0.02, 0.2)))
        self.think = w.pick(cfg.get('think', (0, 0, 0.5, 2.0)))
        self.cut = None             # ('fin'|'reset'|'close'|'stall', byte)
        self.slow_read = 0
        self.sent = 0
        self.arrivals = []          # (time, total bytes)
        self.linger = cfg.get('linger', True)
        self.connected = None
        self.waits = []
        self.hold = w.pick(cfg.get('hold', (0,)))
        self.give_up = cfg.get('give_up', 120.0)
        self.deaf = False           # never reads
        self.last_sent = None

    def answered_at(self, k):
        """When the last byte of response k arrived."""
        end = 0
        for m in self.responses():
            end += m.size
            if m.status // 100 != 1:
                if not m.complete:
                    return None
                k -= 1
                if k < 0:
                    break
        else:
            return None
        for at, n in self.arrivals:
            if n >= end:
                return at
        return None

    def quiet_since(self):
        return self.last_sent

    def start(self):
        self.thread = self.w.spawn(self.run, self.name)
        return self

    # ------------------------------------------------------------ reading
    def reader(self):
        w = self.w
        try:
            while True:
                if self.slow_read:
                    w.sleep(self.slow_read)
                d = self.sock.recv(w.pick((1, 50, 1000, 65536), 'net'))
                if not d:
                    self.eof = True
                    break
                self.buf += d
                self.arrivals.append((w.now, len(self.buf)))
        except OSError:
            self.reset = True
        self.ended_at = w.now

    def responses(self):
        return httpref.parse_all(bytes(self.buf),
                                 [r.method for r in self.reqs],
                                 self.eof)[0]

    def count(self, final=True):
        try:
            return sum(1 for m in self.responses() if m.complete and (
                m.status // 100 != 1 if final else True))
        except httpref.Bad:
            return len(self.reqs)

    def wait_until(self, cond, timeout):
        w = self.w
        end = w.now + timeout
        while not cond() and not self.ended_at and w.now < end:
            w.sleep(0.01)
        return cond()

    # ------------------------------------------------------------ sending
    class Cut(Exception):
        pass

    def send(self, data):
        w = self.w
        while data:
            k = len(data)
            if self.pauses or self.cfg.get('chop'):
                k = 1 + w.draw(min(k, w.pick((1, 20, 1500, 1 << 16))))
            if self.cut and self.sent + k > self.cut[1]:
                k = self.cut[1] - self.sent
                if k:
                    self.sock.sendall(data[:k])
                    self.sent += k
                self.last_sent = w.now
                raise self.Cut
            self.sock.sendall(data[:k])
            self.sent += k
            self.last_sent = w.now
            data = data[k:]
            if self.pauses and w.chance(0.1):
                w.sleep(self.pauses)

    def run(self):
        w = self.w
        if self.at:
            w.sleep(self.at)
        self.sock = socket.socket()
        try:
            self.sock.connect(('localhost', 80))
        except OSError:
            self.ended_at = w.now
            self.done = True
            return
        self.conn = self.sock.conn
        self.connected = w.now
        self.last_sent = w.now
        if self.deaf:
            w.count_fault('client-deaf')
        else:
            w.spawn(self.reader, self.name + '.rd', daemon=True)
        try:
            for i, r in enumerate(self.reqs):
                if i and not self.pipeline:
                    if not self.wait_until(lambda: self.count() >= i,
                                           self.give_up):
                        break
                    if self.think:
                        w.sleep(self.think)
                r.started = w.now
                if r.expect and w.chance(0.7):
                    have = len(self.responses())
                    self.send(r.head)
                    self.wait_until(
                        lambda: len(self.responses()) > have, 3.0)
                    if self.count() > i:
                        # final response: the body is not wanted
                        r.refused = True
                        break
                    self.send(r.wire_body)
                else:
                    self.send(r.wire)
                r.sent_all = w.now
        except self.Cut:
            self.do_cut()
            return
        except OSError:
            pass
        # everything is sent, wait for what comes back
        self.wait_until(lambda: self.count() >= len(self.reqs),
                        self.give_up)
        if self.hold:
            w.sleep(self.hold)
        self.finish()

    def finish(self):
        if not self.ended_at:
            how = self.w.pick(('fin', 'close', 'wait'))
            if how == 'wait' and not self.hold:
                self.wait_until(lambda: False, 30.0)
            elif how == 'fin':
                try:
                    self.sock.shutdown(socket.SHUT_WR)
                    self.wait_until(lambda: False, 30.0)
                except OSError:
                    pass
        self.done = True
        self.sock.close()

    def do_cut(self):
        w = self.w
        kind = self.cut[0]
        w.count_fault('client-' + kind)
        self.cut_at = w.now
        if kind == 'fin':
            self.sock.shutdown(socket.SHUT_WR)
            self.wait_until(lambda: False, self.give_up)
        elif kind == 'reset':
            self.conn.cut(self.conn.c2s, 'reset')
            w.net.wake()
        elif kind == 'stall':
            self.wait_until(lambda: False, self.give_up)
        elif kind == 'blackhole':
            # gone without a trace
            for h in (self.conn.c2s, self.conn.s2c):
                h.dead = True
            w.sleep(self.give_up)
        self.done = True
        self.sock.close()


class Site(object):

    """A server, its application and its clients."""

    def __init__(self, w, nets=('calm',), app_cfg=None, **kw):
        self.w = w
        kind = self.kind = w.pick(nets)
        self.net = net.Net(w, net.Profile(**NETS[kind]))
        self.app = App(w, dict(dict(
            big=300 if kind == 'bytes' else 20000), **(app_cfg or {})))
        self.server = SimServer(80, app=self.app, **kw)
        self.clients = []
        self.conns = []
        self.stopped = False
        w.spawn(self.accept, 'acceptor', daemon=True)

    def accept(self):
        from select import select
        s = self.server
        while True:
            r, x, y = select([s.socket], [], [], None)
            if r:
                s._handle_request_noblock()

    def client(self, reqs, cfg=None, at=0.0):
        c = Client(self.w, self.net, 'c%d' % len(self.clients), reqs,
                   cfg or {}, at)
        self.clients.append(c)
        return c

    def request(self, c, i, cfg):
        tok = 'c%dr%d' % (c, i)
        r = Req(self.w, tok, cfg)
        self.app.plan(tok)
        return r


# -------------------------------------------------------------- the oracles
def calls_of(site, tok):
    return [c for c in site.app.calls if c.tok == tok]


def check_call(r, c):
    """The application was given exactly the request that was sent."""
    e = c.env
    if e.get('REQUEST_METHOD') != r.method:
        raise Violation('wrong-method', '%s: application saw %r, sent %r' % (
            r.tok, e.get('REQUEST_METHOD'), r.method))
    from urllib.parse import unquote_to_bytes
    raw = unquote_to_bytes(r.path)
    try:
        path = raw.decode('utf-8')
    except UnicodeDecodeError:
        path = raw.decode('iso-8859-1')
    if e.get('PATH_INFO') != path:
        raise Violation('wrong-path', '%s: application saw %r, sent %r' % (
            r.tok, e.get('PATH_INFO'), r.path))
    if (e.get('QUERY_STRING') or '') != (r.query or ''):
        raise Violation('wrong-query', '%s: application saw %r, sent %r' % (
            r.tok, e.get('QUERY_STRING'), r.query))
    hs = {}
    for n, v in r.headers:
        k = 'HTTP_' + n.decode('ascii').upper().replace('-', '_')
        hs[k] = hs[k] + ', ' + v.decode('ascii') if k in hs else \
            v.decode('ascii')
    hs.pop('HTTP_TRANSFER_ENCODING', None)
    for k, v in hs.items():
        if k in ('HTTP_HOST',):
            continue
        have = e.get(k)
        if k in ('HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH'):
            have = e.get(k[5:])
        if have != v:
            raise Violation('wrong-header', '%s: application saw %s=%r, '
                            'sent %r' % (r.tok, k, have, v))
    if not r.body.startswith(c.body):
        raise Violation('wrong-body', '%s: the application read bytes that '
                        'are not the body: %r...' % (r.tok, c.body[:60]))
    if c.eof and c.body != r.body:
        raise Violation('short-body', '%s: the application saw the end of '
                        'the body after %d of %d bytes' % (
                            r.tok, len(c.body), len(r.body)))


def check_response(r, p, m, broken=False):
    """A complete response carries what the application produced."""
    if m.status != p.code:
        raise Violation('wrong-status', '%s: response has status %d, the '
                        'application gave %d' % (r.tok, m.status, p.code))
    for n, v in p.extra:
        if m.get(n) != v.encode('ascii'):
            raise Violation('wrong-response-header', '%s: %s is %r, the '
                            'application gave %r' % (r.tok, n, m.get(n), v))
    if p.type and m.get('Content-Type') != p.type.encode('ascii'):
        raise Violation('wrong-response-header', '%s: Content-Type is %r' % (
            r.tok, m.get('Content-Type')))
    want = b'' if r.method == 'HEAD' or p.code in (204, 304) else p.body
    if m.body != want and not (
            broken and m.framing == 'close' and want.startswith(m.body)):
        raise Violation('wrong-response-body', '%s: body of %d bytes, the '
                        'application gave %d: %r...' % (
                            r.tok, len(m.body), len(want), m.body[:60]))


def check_client(site, c, benign):
    w = site.w
    app = site.app
    if c.connected is None:
        return
    methods = [r.method for r in c.reqs]
    # everything received so far parses as a sequence of responses
    try:
        msgs, rest = httpref.parse_all(bytes(c.buf), methods, c.eof)
    except httpref.Bad as e:
        raise Violation('malformed-response', '%s: %s' % (c.name, e))
    if rest and (not msgs or msgs[-1].complete):
        if len([m for m in msgs if m.status // 100 != 1]) >= len(methods) \
                or benign:
            raise Violation('surplus-bytes', '%s: received %r after the '
                            'last response' % (c.name, bytes(rest[:60])))
    i = 0
    interim = 0
    closing = None
    asked = [j for j, r in enumerate(c.reqs)
             if (r.close or r.version == b'1.0') and not r.bad]
    for r in c.reqs[asked[0] + 1:] if asked else ():
        if calls_of(site, r.tok):
            raise Violation('called-after-close', '%s: the application was '
                            'called after the request that ends the '
                            'connection' % r.tok)
    for m in msgs:
        r = c.reqs[i]
        p = app.plans.get(r.tok)
        calls = calls_of(site, r.tok)
        if closing is not None:
            raise Violation('response-after-close', '%s: a response follows '
                            'the one with which the server closes' % r.tok)
        if m.status // 100 == 1:
            interim += 1
            if m.status != 100 or not r.expect or interim > 1:
                raise Violation('stray-interim', '%s: interim response %d' %
                                (r.tok, m.status))
            w.probe('sent-100')
            continue
        interim = 0
        tag = m.get('X-Tag')
        if tag is not None and tag != r.tok.encode('ascii'):
            raise Violation('wrong-response', 'the response to request %s '
                            'is that of request %s' % (
                                r.tok, tag.decode('latin-1')))
        if tag is not None and not r.bad and not r.started is None:
            if not calls:
                raise Violation('no-call', '%s: answered without calling '
                                'the application' % r.tok)
        if m.complete and tag is not None and \
                p.code == m.status and p.fail is None and not r.bad:
            check_response(r, p, m, not benign)
            w.probe('answered')
        elif tag is not None and p.fail in (None, 'mid') and not r.bad:
            # the head is right even if the rest did not arrive
            want = p.body
            if not want.startswith(m.body) and r.method != 'HEAD':
                raise Violation('wrong-response-body', '%s: the response '
                                'has other bytes: %r' % (r.tok, m.body[:60]))
            if m.complete and m.framing != 'close' and r.method != 'HEAD' \
                    and p.fail == 'mid' and len(m.body) < len(p.body):
                raise Violation('failure-hidden', '%s: the application '
                                'failed after %d of %d bytes and the '
                                'response is complete' % (
                                    r.tok, len(m.body), len(p.body)))
        if p is not None and p.fail in ('before', 'started', 'no_start') \
                and not r.bad and m.status < 400:
            raise Violation('failure-hidden', '%s: the application failed '
                            '(%s) and the response is %d' % (
                                r.tok, p.fail, m.status))
        if r.bad and m.status < 400 and not r.bad_body and \
                r.bad != 'header':
            raise Violation('malformed-accepted', '%s: malformed request '
                            '(%s) answered with %d' % (
                                r.tok, r.bad, m.status))
        if m.complete and (m.closes() or m.framing == 'close' or
                           i in asked):
            closing = i
        i += 1
        if not m.complete:
            break
        if i >= len(c.reqs):
            break
    # the application was called as it should be
    for j, r in enumerate(c.reqs):
        calls = calls_of(site, r.tok)
        if len(calls) > 1:
            raise Violation('called-twice', '%s: the application was called '
                            '%d times for one request' % (
                                r.tok, len(calls)))
        for call in calls:
            if r.started is None:
                raise Violation('early-call', '%s: called before it was '
                                'sent' % r.tok)
            if r.bad == 'header':
                continue
            if r.bad and not r.bad_body:
                raise Violation('malformed-accepted', '%s: the application '
                                'was called with a malformed request (%s)' %
                                (r.tok, r.bad))
            if not r.bad:
                check_call(r, call)
                if call.eof and c.cut is not None and r.sent_all is None \
                        and r.framing != 'none' and r.wire_body and \
                        call.finished and c.sent < sum(
                            len(x.wire) for x in c.reqs[:j + 1]):
                    raise Violation('truncated-body', '%s: the application '
                                    'saw the end of a body that was never '
                                    'sent in full' % r.tok)
            elif call.eof:
                raise Violation('truncated-body', '%s: the application saw '
                                'the end of a malformed body' % r.tok)
        if closing is not None and j > closing and calls:
            raise Violation('called-after-close', '%s: the application was '
                            'called after the closing response' % r.tok)
    if not benign:
        return
    # with nothing in the way every request is answered
    n = len([m for m in msgs if m.complete and m.status // 100 != 1])
    for j, r in enumerate(c.reqs):
        p = app.plans.get(r.tok)
        if closing is not None and j > closing:
            break
        if r.started is None:
            break
        if j >= n:
            if j and app.plans[c.reqs[j - 1].tok].fail:
                break
            if p.fail == 'mid':
                break
            if p.read == 'late' and r.expect and p.code >= 400:
                # refused a body that the application then reads
                break
            if c.reset and any(
                    (x.close or x.version == b'1.0' or x.expect) and
                    (k + 1 < len(c.reqs) and
                     c.reqs[k + 1].started is not None)
                    for k, x in enumerate(c.reqs[:j + 1])):
                # sent more after a request that ends the connection:
                # the reset that answers it can destroy the response
                w.probe('reset-by-excess')
                break
            raise Violation('unanswered', '%s: no response (%s; %d bytes '
                            'received, eof %s)' % (
                                r.tok, p.fail, len(c.buf), c.eof))
        if p.fail is None and not r.bad and \
                len(calls_of(site, r.tok)) != 1:
            raise Violation('not-called', '%s: the application was called '
                            '%d times' % (r.tok, len(calls_of(site, r.tok))))
        m = [x for x in msgs if x.status // 100 != 1][j]
        if p.fail is None and not r.bad and m.status != p.code:
            raise Violation('wrong-status', '%s: response has status %d, '
                            'the application gave %d' % (
                                r.tok, m.status, p.code))
        if p.fail is None and not r.bad and \
                p.read in ('all', 'late', 'chunks', 'lines', 'iter',
                           'twice') and not calls_of(site, r.tok)[0].eof \
                and calls_of(site, r.tok)[0].finished:
            if not (r.expect and p.code >= 400):
                raise Violation('short-body', '%s: the application never '
                                'saw the end of the body' % r.tok)
    if closing is not None and not c.ended_at and \
            'closed_server' not in c.conn.meta:
        raise Violation('not-closed', '%s: the connection stays open after '
                        'a closing response' % c.name)
