"""HTTP message receive and send state machines (C04)."""
import errno
import io
import zlib

from sim import httpref
from sim.core import Violation
from sim.runner import Check, Scenario
from pyslet import streams
from pyslet.http import messages, params


def _fail(kind, msg, *a, **kw):
    raise Violation(kind, msg % a if a else msg, **kw)


def body_bytes(w, n):
    # text that contains CRLFs, chunk look-alikes and high bytes
    pieces = (b'abc', b'\r\n', b'\r', b'\n', b'0\r\n\r\n', b'5;x\r\n', b'\x00',
              b'\xff\xfe', b'HTTP/1.1 200 OK\r\n', b'GET / HTTP/1.1\r\n',
              b'zzzzzzzz', b'--sep--')
    out = []
    size = 0
    while size < n:
        p = w.pick(pieces, 'data')
        out.append(p)
        size += len(p)
    return b''.join(out)[:n]


SIZES = (0, 1, 2, 3, 7, 40, 300, 1000, 5000, 9000, 20000)


class Sink(io.RawIOBase):

    """A body sink that accepts drawn amounts and sometimes blocks."""

    def __init__(self, w, p_block, p_part, p_err=0):
        io.RawIOBase.__init__(self)
        self.w = w
        self.got = bytearray()
        self.p_block = p_block
        self.p_part = p_part
        self.p_err = p_err
        self.flushes = 0
        self.dirty = False
        self.failed = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.w.fault('sink-would-block', self.p_block):
            return None
        if self.w.fault('sink-error', self.p_err):
            self.failed = True
            raise IOError(errno.ENOSPC, 'injected')
        k = len(b)
        if k > 1 and self.w.fault('sink-short-write', self.p_part):
            k = 1 + self.w.draw(k - 1)
        self.got += b[:k]
        self.dirty = True
        return k

    def flush(self):
        if self.closed:
            return
        self.flushes += 1
        if self.dirty and self.w.fault('sink-flush-would-block',
                                       self.p_block):
            raise IOError(errno.EAGAIN, 'injected')
        self.dirty = False

    def tell(self):
        raise IOError(errno.ESPIPE, 'not seekable')


class PlainSink(object):

    """File-like but not an io class: write() returns nothing."""

    def __init__(self):
        self.got = bytearray()

    def write(self, b):
        self.got += b

    def flush(self):
        pass


HNAMES = (b'X-A', b'x-b', b'Accept-Thing', b'X-Long', b'ETag-ish')
HVALS = (b'1', b'a, b', b'"q, r"', b'x' * 200, b'\xe9t\xe9', b'a:b', b'')


def gen_headers(w):
    hs = []
    for _ in range(w.draw(4)):
        hs.append((w.pick(HNAMES), w.pick(HVALS)))
    return hs


class Hooks(object):

    """Mix-in recording the order of the message hooks."""

    def recv_start(self, line):
        self.calls = getattr(self, 'calls', [])
        self.calls.append('start')
        super(Hooks, self).recv_start(line)

    def handle_headers(self):
        self.calls.append('headers')
        super(Hooks, self).handle_headers()

    def handle_message(self):
        self.calls.append('message')
        super(Hooks, self).handle_message()


class HookRequest(Hooks, messages.Request):
    pass


class HookResponse(Hooks, messages.Response):
    pass


def build(w):
    """Returns (kind, method, wire bytes, expected dict)."""
    kind = w.pick(('response', 'request'))
    body = body_bytes(w, w.pick(SIZES))
    headers = gen_headers(w)
    method = w.pick((b'GET', b'POST', b'PUT', b'HEAD', b'DELETE'))
    version = w.pick((b'HTTP/1.1', b'HTTP/1.1', b'HTTP/1.0'))
    framing = w.pick(('length', 'chunked', 'chunked', 'gzip', 'none', 'close'))
    if framing == 'close' and kind == 'request':
        framing = 'none'
    status = w.pick((b'200 OK', b'404 Not Found', b'201 ', b'500 Oh dear',
                     b'204 No Content', b'304 Not Modified', b'100 Continue'))
    bodyless = kind == 'response' and (
        method == b'HEAD' or status[:3] in (b'204', b'304', b'100'))
    if kind == 'request':
        start = method + b' /x?y=1 ' + version
        if method in (b'GET', b'HEAD', b'DELETE'):
            framing = 'none'
    else:
        start = version + b' ' + status
    extra_h = []
    if framing == 'none':
        if kind == 'response' and not bodyless:
            extra_h.append((b'Content-Length', b'0'))
        body = b''
        wire_body = b''
    elif framing == 'length':
        extra_h.append((b'Content-Length', b'%d' % len(body)))
        wire_body = body
    elif framing in ('chunked', 'gzip'):
        data = body
        if framing == 'gzip':
            c = zlib.compressobj(6, zlib.DEFLATED, 31)
            data = c.compress(body) + c.flush()
            extra_h.append((b'Transfer-Encoding', b'gzip, chunked'))
        else:
            extra_h.append((b'Transfer-Encoding', w.pick(
                (b'chunked', b'Chunked', b'chunked'))))
        sizes = [w.pick((1, 2, 10, 16, 100, 1000, 5000))
                 for _ in range(w.draw(6))]
        trailers = [(b'X-Trailer', b't%d' % w.draw(9))
                    for _ in range(w.draw(3))]
        wire_body = httpref.chunked(
            data, sizes, w.pick((b'', b'', b';a=b', b';n="q"')), trailers)
        headers = headers + []
    else:
        wire_body = body
    if bodyless:
        # the headers may describe a body that is not there
        body = b''
        wire_body = b''
        if framing == 'chunked' or framing == 'gzip':
            extra_h = []
    hs = headers + extra_h
    if w.chance(0.5):
        hs = extra_h + headers
    wire = httpref.head(start, hs) + wire_body
    exp = dict(start=start, headers=hs, body=body, framing=framing,
               bodyless=bodyless, method=method, version=version,
               status=status)
    return kind, wire, exp


def make(w, kind, exp, sink):
    kw = {}
    if sink is not None:
        kw['entity_body'] = sink
    if kind == 'request':
        return HookRequest(**kw)
    req = messages.Request()
    req.set_method(exp['method'].decode())
    req.set_request_uri('/x')
    return HookResponse(req, **kw)


def feed(w, m, wire, limit, eof_after, big):
    """Feed m from wire[:limit]; returns bytes consumed."""
    pos = 0
    blocked = 0
    while True:
        mode = m.recv_mode()
        if mode is None:
            return pos
        if mode == 0:
            w.probe('blocked')
            blocked += 1
            if blocked > 5000:
                _fail('stuck', 'message write-blocked for ever')
            w.sleep(0.001)
            m.recv(None)
            continue
        if mode == m.RECV_LINE:
            i = wire.find(b'\r\n', pos, limit)
            if i < 0:
                return pos
            m.recv(wire[pos:i + 2])
            pos = i + 2
        elif mode == m.RECV_HEADERS:
            lines = []
            p = pos
            while True:
                i = wire.find(b'\r\n', p, limit)
                if i < 0:
                    return pos
                lines.append(wire[p:i + 2])
                p = i + 2
                if lines[-1] == b'\r\n':
                    break
            pos = p
            m.recv(lines)
        else:
            n = limit - pos
            if mode > 0:
                n = min(n, mode)
            elif eof_after is False and n == 0:
                return pos
            if n > 1:
                k = w.pick((1, 2, 7, 100, 4096, n)) if big else \
                    1 + w.draw(n, 'frag')
                n = min(n, k)
            if n == 0 and mode > 0:
                # the connection has ended
                m.recv(b'')
                return pos
            m.recv(wire[pos:pos + n])
            pos += n


def header_check(m, hs):
    names = {}
    for n, v in hs:
        names.setdefault(n.lower(), []).append(v)
    if sorted(names) != sorted(m.get_headerlist()):
        _fail('headers', 'header names %r, sent %r', m.get_headerlist(),
              sorted(names))
    for n, vs in names.items():
        got = m.get_header(n, list_mode=True)
        if got != vs or m.get_header(n) != b', '.join(vs):
            _fail('headers', 'header %r is %r, sent %r', n, got, vs)


def check_start(m, kind, exp):
    if kind == 'request':
        if m.method != exp['method'].decode() or \
                m.request_uri != '/x?y=1':
            _fail('start', 'request line %r %r', m.method, m.request_uri)
    else:
        if m.status != int(exp['status'][:3]) or \
                m.reason != exp['status'][4:].decode():
            _fail('start', 'status %r %r, sent %r', m.status, m.reason,
                  exp['status'])
    if str(m.protocol).encode() != exp['version']:
        _fail('start', 'version %s', m.protocol)


def recv(w):
    kind, wire, exp = build(w)
    sink_kind = w.pick(('default', 'raw', 'raw', 'pipe', 'plain'))
    sink = None
    if sink_kind == 'raw':
        sink = Sink(w, w.pick((0, 0.2, 0.6)), w.pick((0, 0.3, 0.8)))
    elif sink_kind == 'plain':
        sink = PlainSink()
    elif sink_kind == 'pipe':
        sink = streams.Pipe(bsize=w.pick((1, 10, 500, 8192)),
                            wblocking=False, timeout=60)
    m = make(w, kind, exp, sink)
    m.start_receiving()
    got = []
    if sink_kind == 'pipe':
        def reader():
            while True:
                d = sink.read(w.pick((1, 5, 1000)))
                if not d:
                    return
                got.append(d)
                if w.chance(0.2):
                    w.sleep(0.01)
        rt = w.spawn(reader, 'reader')
    # what follows on the connection must not be touched
    after = w.pick((b'', b'GET /next HTTP/1.1\r\n\r\n', b'\r\n', b'junk'))
    if exp['framing'] == 'close' and not exp['bodyless']:
        after = b''
    trunc = w.chance(0.3)
    limit = len(wire + after)
    if trunc:
        limit = w.draw(len(wire), 'cut')
        w.count_fault('truncated')
    w.log('recv', kind, exp['framing'], len(exp['body']), sink_kind, trunc,
          limit)
    err = None
    used = 0
    try:
        used = feed(w, m, wire + after, limit,
                    not trunc or exp['framing'] != 'close',
                    len(wire) > 600)
    except messages.ProtocolError as e:
        err = e
    if sink_kind == 'pipe':
        sink.write_eof()
        if not w.join(rt, 120):
            _fail('stuck', 'body reader never finished')
        body = b''.join(got)
    elif sink is not None:
        body = bytes(sink.got)
    else:
        body = m.entity_body.getvalue()
    complete = m.recv_mode() is None
    calls = getattr(m, 'calls', [])
    w.log('end', complete, err is not None, used, len(body))
    if trunc:
        if complete or 'message' in calls:
            _fail('truncated-complete', '%s %s message cut at byte %d of %d '
                  'is complete', kind, exp['framing'], limit, len(wire))
        if exp['framing'] != 'gzip' and body != exp['body'][:len(body)]:
            _fail('body', 'truncated message: body is not a prefix')
        return
    if err is not None:
        _fail('refused', 'valid %s %s message refused: %s', kind,
              exp['framing'], err)
    if not complete:
        _fail('incomplete', '%s %s message of %d bytes incomplete after %d',
              kind, exp['framing'], len(wire), used)
    if used != len(wire):
        _fail('consumed', '%s %s message of %d bytes took %d', kind,
              exp['framing'], len(wire), used)
    if calls != ['start', 'headers', 'message']:
        _fail('hooks', 'hooks called: %r', calls)
    check_start(m, kind, exp)
    hs = list(exp['headers'])
    if exp['framing'] in ('chunked', 'gzip') and not exp['bodyless']:
        ref = httpref.parse(wire, 0, exp['method'].decode()
                            if kind == 'response' else None)
        hs += ref.trailers
    header_check(m, hs)
    if body != exp['body']:
        _fail('body', '%s %s body is %d bytes, sent %d; %r', kind,
              exp['framing'], len(body), len(exp['body']),
              _diff(body, exp['body']))
    if m.keep_alive != (exp['version'] == b'HTTP/1.1' ):
        _fail('keep-alive', 'keep_alive is %r', m.keep_alive)


def _diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return (i, a[i:i + 20], b[i:i + 20])


def corrupt(w):
    """Broken chunk framing is an error, not the end of the body."""
    body = body_bytes(w, w.between(1, 200))
    sizes = [w.between(1, 50) for _ in range(w.draw(4))]
    enc = httpref.chunked(body, sizes)
    kind = w.pick(('size', 'term', 'empty'))
    ref = enc
    if kind == 'size':
        i = enc.find(b'\r\n')
        enc = w.pick((b'xyz', b'-5', b'', b' ', b'0x5')) + enc[i:]
    elif kind == 'term':
        # data longer than the stated size
        i = enc.find(b'\r\n') + 2
        enc = enc[:i] + b'Q' + enc[i:]
    else:
        enc = b'\r\n' + enc
    head = httpref.head(b'HTTP/1.1 200 OK', [(b'Transfer-Encoding',
                                              b'chunked')])
    w.count_fault('corrupt-chunk')
    exp = dict(method=b'GET')
    m = make(w, 'response', exp, None)
    m.start_receiving()
    wire = head + enc
    err = None
    try:
        feed(w, m, wire, len(wire), True, False)
    except (messages.HTTPException, ValueError) as e:
        err = e
    w.log('corrupt', kind, err is not None)
    if err is None and m.recv_mode() is None:
        try:
            r = httpref.parse(wire, 0, 'GET')
        except httpref.Bad:
            r = None
        if r is None or not r.complete or \
                r.body != m.entity_body.getvalue():
            _fail('corrupt', 'corrupt chunked body (%s) taken as complete: '
                  '%r', kind, enc[:60])


class Body(io.RawIOBase):

    """A body source: fragments, blocks, fails."""

    def __init__(self, w, data, p_block, frag, seekable):
        io.RawIOBase.__init__(self)
        self.w = w
        self.data = data
        self.pos = 0
        self.p_block = p_block
        self.frag = frag
        self._seekable = seekable
        self.eofs = 0

    def readable(self):
        return True

    def seekable(self):
        return self._seekable

    def tell(self):
        if not self._seekable:
            raise IOError(errno.ESPIPE, 'not seekable')
        return self.pos

    def seek(self, off, wh=0):
        if not self._seekable:
            raise IOError(errno.ESPIPE, 'not seekable')
        self.pos = (0, self.pos, len(self.data))[wh] + off
        return self.pos

    def readinto(self, b):
        w = self.w
        if w.fault('source-would-block', self.p_block):
            return None
        k = min(len(b), len(self.data) - self.pos)
        if k > 1 and self.frag:
            k = w.pick((1, k, max(1, k // 2), min(k, 3)))
            w.count_fault('short-read')
        b[:k] = self.data[self.pos:self.pos + k]
        self.pos += k
        return k


def drain(w, m, stop_after=None):
    """Everything the message sends (or the first stop_after bytes)."""
    out = [m.send_start(), m.send_header()]
    size = 0
    for p in out:
        if not isinstance(p, bytes):
            _fail('bytes', 'send_start/send_header gave %r', type(p))
    n = 0
    while True:
        n += 1
        if n > 60000:
            _fail('stuck', 'send_body never ends')
        d = m.send_body()
        if d is None:
            w.probe('send-blocked')
            w.sleep(0.001)
            continue
        if not isinstance(d, bytes):
            _fail('bytes', 'send_body gave %r', type(d))
        if not d:
            break
        out.append(d)
        size += len(d)
        if stop_after is not None and size >= stop_after:
            return b''.join(out), False
    # once done it stays done
    if m.send_body() != b'':
        _fail('restart', 'send_body gave data after the end')
    return b''.join(out), True


def send(w):
    kind = w.pick(('request', 'response'))
    body = body_bytes(w, w.pick(SIZES))
    shape = w.pick(('none', 'bytes', 'stream', 'stream-length', 'pipe',
                    'short', 'long'))
    method = w.pick(('GET', 'POST', 'PUT', 'HEAD', 'DELETE'))
    status = w.pick((200, 404, 201, 500, 204, 304))
    version = w.pick((params.HTTP_1p1, params.HTTP_1p1, params.HTTP_1p0))
    peer = w.pick((params.HTTP_1p1, params.HTTP_1p1, params.HTTP_1p0, None))
    te = w.pick((None, None, 'chunked', 'gzip, chunked'))
    bodyless = kind == 'response' and (
        status in (204, 304) or method == 'HEAD')
    if kind == 'request' and method in ('GET', 'HEAD', 'DELETE'):
        shape = 'none'
    if bodyless:
        shape = 'none'
    frag = w.draw(2)
    p_block = w.pick((0, 0, 0.3))
    seekable = w.chance(0.6)
    start0 = 0
    src = None
    expect_error = False
    if shape == 'none':
        body = b''
    elif shape == 'bytes':
        src = body
        seekable = True
    elif shape == 'pipe':
        src = streams.Pipe(bsize=w.pick((10, 1000)), rblocking=False,
                           timeout=600)
        seekable = False

        def writer(pos=0):
            while pos < len(body):
                try:
                    n = src.write(body[pos:pos + w.pick((1, 50, 3000))])
                except (IOError, ValueError):
                    return
                pos += n
                if w.chance(0.1):
                    w.sleep(0.01)
            src.write_eof()
    else:
        if seekable and w.chance(0.3):
            start0 = w.draw(len(body) + 1)
        src = Body(w, body, p_block, frag, seekable)
        src.pos = start0
        body = body[start0:]
    kw = {}
    if src is not None:
        kw['entity_body'] = src
    if kind == 'request':
        m = messages.Request(protocol=version, **kw)
        m.set_method(method)
        m.set_request_uri('/path?q=1')
        m.set_host('example.com')
    else:
        req = messages.Request(protocol=version)
        req.set_method(method)
        req.set_request_uri('/path')
        m = messages.Response(req, protocol=version, **kw)
        m.set_status(status)
    hs = gen_headers(w)
    for n, v in hs:
        m.set_header(n, v, True)
    if shape in ('stream-length', 'short', 'long'):
        n = len(body)
        if shape == 'short':
            n += w.between(1, 30)
            expect_error = True
        elif shape == 'long':
            n = max(0, n - w.between(1, 30))
            body = body[:n]
        m.set_content_length(n)
        te = None
    if te is not None and src is not None and shape != 'bytes':
        m.set_transfer_encoding(te)
    else:
        te = None
    if shape == 'pipe':
        w.spawn(writer, 'writer')
    w.log('send', kind, method, status, shape, str(version), str(peer), te,
          len(body), seekable)
    sent = []
    try:
        m.start_sending(peer if kind == 'request' else params.HTTP_1p1)
        if shape not in ('pipe',) and seekable and src is not None and \
                w.chance(0.4):
            # interrupted and started again
            drain(w, m, w.draw(len(body) + 1))
            w.count_fault('send-interrupted')
            m.start_sending(peer if kind == 'request' else params.HTTP_1p1)
            w.probe('resent')
        wire, done = drain(w, m)
    except messages.HTTPException as e:
        w.log('refused', type(e).__name__)
        if shape == 'pipe':
            src.close()
        if expect_error:
            return
        if kind == 'request' and src is not None and shape != 'bytes' and \
                (peer is None or peer <= params.HTTP_1p0) and \
                len(body) >= messages.Message.MAX_READAHEAD:
            return
        if 'Length required' in str(e) and (p_block or shape == 'pipe'):
            # the source blocked while its length was being determined
            return
        _fail('refused', 'could not send %s %s: %s', kind, shape, e)
    if expect_error:
        _fail('short', 'a body of %d bytes was sent as complete with '
              'Content-Length %s', len(body), m.get_content_length())
    try:
        r = httpref.parse(wire, 0, method if kind == 'response' else None,
                          eof=True)
    except httpref.Bad as e:
        _fail('malformed', '%s %s sent malformed data: %s; %r', kind, shape,
              e, wire[:200])
    if r is None or not r.complete:
        _fail('malformed', '%s %s sent an incomplete message: %r', kind,
              shape, wire[:300])
    if r.size != len(wire):
        _fail('malformed', '%s %s sent %d bytes after the end of the message',
              kind, shape, len(wire) - r.size)
    if r.body != body:
        _fail('body', '%s %s sent a body of %d bytes, source has %d: %r',
              kind, shape, len(r.body), len(body), _diff(r.body, body))
    if r.framing == 'close' and not (r.closes()):
        _fail('framing', 'read-until-close response does not say close')
    one0 = (kind == 'request' and (peer is None or
                                   peer <= params.HTTP_1p0)) or \
        (kind == 'response' and version <= params.HTTP_1p0)
    if one0 and r.framing == 'chunked':
        _fail('framing', 'chunked sent to an HTTP/1.0 recipient')
    if kind == 'request':
        if r.start != b'%s /path?q=1 %s' % (method.encode(),
                                            str(version).encode()):
            _fail('start', 'request line %r', r.start)
    elif r.status != status:
        _fail('start', 'status line %r', r.start)
    names = {}
    for n, v in hs:
        names.setdefault(n.lower(), []).append(v)
    for n, vs in names.items():
        if r.get_all(n) != vs:
            _fail('headers', 'header %r sent as %r, set %r', n, r.get_all(n),
                  vs)
    if kind == 'response' and not bodyless and r.framing == 'none':
        _fail('framing', 'response without framing')
    w.log('wire', len(wire), r.framing)


def roundtrip(w):
    """One message's output is the other's input, over pipes, in threads."""
    body = body_bytes(w, w.pick(SIZES))
    src = Body(w, body, w.pick((0, 0.2)), w.draw(2), False)
    te = w.pick((None, 'chunked', 'gzip, chunked'))
    a = messages.Request(entity_body=src)
    a.set_method('POST')
    a.set_request_uri('/p')
    if te:
        a.set_transfer_encoding(te)
    wire = streams.Pipe(bsize=w.pick((1, 50, 4000)), timeout=120)
    sink = streams.Pipe(bsize=w.pick((1, 50, 4000)), wblocking=False,
                        timeout=120)
    b = HookRequest(entity_body=sink)

    def sender():
        a.start_sending()
        wire.write(a.send_start())
        wire.write(a.send_header())
        while True:
            d = a.send_body()
            if d is None:
                w.sleep(0.001)
            elif d:
                wire.write(d)
            else:
                break
        wire.write_eof()

    def receiver():
        b.start_receiving()
        buf = bytearray()

        def more():
            d = wire.read(w.pick((1, 10, 1000)))
            if not d:
                _fail('incomplete', 'receiver wants more at the end: mode '
                      '%r', b.recv_mode())
            buf.extend(d)

        while True:
            mode = b.recv_mode()
            if mode is None:
                break
            if mode == 0:
                w.sleep(0.001)
                b.recv(None)
            elif mode == b.RECV_LINE:
                while b'\r\n' not in buf:
                    more()
                i = buf.find(b'\r\n') + 2
                b.recv(bytes(buf[:i]))
                del buf[:i]
            elif mode == b.RECV_HEADERS:
                while b'\r\n\r\n' not in buf and buf[:2] != b'\r\n':
                    more()
                i = 2 if buf[:2] == b'\r\n' else \
                    buf.find(b'\r\n\r\n') + 4
                lines = bytes(buf[:i]).splitlines(True)
                b.recv(lines)
                del buf[:i]
            else:
                if not buf:
                    more()
                d = bytes(buf[:mode] if mode > 0 else buf)
                del buf[:len(d)]
                b.recv(d)
        if buf:
            _fail('consumed', '%d bytes left over', len(buf))
        sink.write_eof()

    got = []

    def app():
        while True:
            d = sink.read(w.pick((1, 10, 1000)))
            if not d:
                break
            got.append(d)

    ts = [w.spawn(f, n) for f, n in ((sender, 'sender'),
                                     (receiver, 'receiver'), (app, 'app'))]
    for t in ts:
        if not w.join(t, 600):
            _fail('stuck', 'transfer still running: %s', w.blocked_desc())
    if b''.join(got) != body:
        _fail('body', 'body of %d bytes arrived as %d', len(body),
              len(b''.join(got)))
    if b.calls != ['start', 'headers', 'message']:
        _fail('hooks', '%r', b.calls)


def _sched(fn):
    def go(w):
        w.randomize_sched()
        fn(w)
    return go


CHECK = Check(
    'C04',
    [Scenario('recv', _sched(recv), quick=4000),
     Scenario('send', _sched(send), quick=3500),
     Scenario('roundtrip', _sched(roundtrip), quick=500),
     Scenario('corrupt', _sched(corrupt), quick=500)],
    rule='complete exactly when all bytes arrived, then equal to the message '
         'per an independent parser; emitted bytes parse back to the message',
    real=['pyslet.http.messages Message/Request/Response', 'GzipEncoder',
          'GzipDecoder', 'pyslet.streams.Pipe'],
    stub=['connection (drawn pieces)', 'body sources and sinks'],
    faults=['truncated', 'sink-would-block', 'sink-short-write',
            'sink-flush-would-block', 'source-would-block', 'short-read',
            'send-interrupted', 'corrupt-chunk'],
    probes=['blocked', 'send-blocked', 'resent'])
