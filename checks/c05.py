"""Request-body readers for WSGI applications (C05)."""
import io

from sim import httpref
from sim.core import Violation
from sim.runner import Check, Scenario
from pyslet import streams
from pyslet.http import messages
from checks.c04 import body_bytes, _diff


def _fail(kind, msg, *a, **kw):
    raise Violation(kind, msg % a if a else msg, **kw)


class Input(io.RawIOBase):

    """wsgi.input: a blocking stream with short reads.

    It goes on after the body with bytes of the next request, which nobody
    may take."""

    def __init__(self, w, data, body_end, frag, p_err=0):
        io.RawIOBase.__init__(self)
        self.w = w
        self.data = data
        self.end = body_end
        self.pos = 0
        self.frag = frag
        self.asked_past = False
        self.eof = False

    def readable(self):
        return True

    def read(self, n=-1):
        w = self.w
        w.yield_point('input')
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        k = min(n, left)
        if k > 1 and self.frag:
            f = w.pick((k, 1, max(1, k // 2), min(k, 3)))
            if f < k:
                w.count_fault('short-read')
            k = f
        d = self.data[self.pos:self.pos + k]
        self.pos += k
        if n and not d:
            self.eof = True
        return d

    def readline(self, limit=-1):
        self.w.yield_point('input')
        i = self.data.find(b'\n', self.pos)
        e = len(self.data) if i < 0 else i + 1
        d = self.data[self.pos:e]
        self.pos = e
        if not d:
            self.eof = True
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class PipeInput(object):

    """wsgi.input as pyslet's own server provides it."""

    def __init__(self, w, data):
        self.w = w
        self.pipe = streams.Pipe(bsize=w.pick((1, 7, 100, 4096)), timeout=600)
        self.buf = io.BufferedReader(self.pipe)
        self.end = len(data)
        self.pos = 0
        self.eof = False

        def writer():
            pos = 0
            while pos < len(data):
                try:
                    pos += self.pipe.write(data[pos:pos + w.pick(
                        (1, 2, 30, 1000))])
                except IOError:
                    return
                if w.chance(0.1):
                    w.sleep(0.01)
            self.pipe.write_eof()
        self.thread = w.spawn(writer, 'writer', daemon=True)

    def read(self, n=-1):
        return self.buf.read(n)

    def readline(self, n=-1):
        return self.buf.readline(n)


class Ref(object):

    """What a file holding the body would give."""

    def __init__(self, body):
        self.f = io.BytesIO(body)
        self.body = body


def read_ops(w, r, body, src, seek_size, known, cut):
    """Drive the wrapper; returns True if it reported an error."""
    pos = 0
    total = len(body)
    limit_pos = min(seek_size, total) if not cut else None
    for _ in range(w.between(1, 40)):
        op = w.weighted(((8, 'read'), (3, 'into'), (4, 'line'), (1, 'lines'),
                         (1, 'all'), (2, 'iter'), (4, 'seek'), (2, 'tell')))
        try:
            if op == 'read':
                n = w.pick((0, 1, 2, 5, 16, 100, 1000, 10000))
                d = r.read(n)
                full = n
            elif op == 'into':
                n = w.pick((0, 1, 5, 100, 10000))
                ba = bytearray(b'\xee' * n)
                k = r.readinto(ba)
                if len(ba) != n or bytes(ba[k:]) != b'\xee' * (n - k):
                    _fail('readinto', 'buffer resized or over-written')
                d = bytes(ba[:k])
                full = n
            elif op == 'line':
                lim = w.pick((-1, -1, 0, 1, 5, 100))
                d = r.readline(lim)
                i = body.find(b'\n', pos)
                e = total if i < 0 else i + 1
                if lim >= 0:
                    e = min(e, pos + lim)
                if d != body[pos:e] and not cut:
                    _fail('readline', 'at %d gave %r, expected %r', pos, d,
                          body[pos:e])
                full = len(d)
            elif op == 'lines':
                hint = w.pick((-1, 0, 20, 300))
                got = r.readlines(hint)
                d = b''.join(got)
                want = []
                t = 0
                ref = io.BytesIO(body[pos:])
                for l in ref:
                    want.append(l)
                    t += len(l)
                    if hint >= 0 and t > hint:
                        break
                if got != want and not cut:
                    _fail('readlines', 'hint %d gave %d lines, expected %d',
                          hint, len(got), len(want))
                full = len(d)
            elif op == 'iter':
                d = b''
                k = w.between(1, 5)
                for i, l in enumerate(r):
                    d += l
                    if i + 1 >= k:
                        break
                full = len(d)
            elif op == 'all':
                d = r.read() if w.draw(2) else r.read(None)
                if d != body[pos:] and not cut:
                    _fail('read-all', 'at %d gave %d bytes, %d remain: %r',
                          pos, len(d), total - pos, _diff(d, body[pos:]))
                full = 1
            elif op == 'tell':
                if r.tell() != pos:
                    _fail('tell', 'tell() %r, position %d', r.tell(), pos)
                continue
            else:
                if cut:
                    continue
                wh = w.pick((0, 0, 1, 2))
                off = w.pick((0, 1, 3, 10, 50, 500, w.draw(total + 1)))
                if wh == 1:
                    off -= w.pick((0, 1, pos))
                elif wh == 2:
                    off = -off
                base = (0, pos, total)[wh]
                want = base + off
                buffered = min(seek_size, total)
                may = pos <= buffered
                if r.seekable() != may:
                    _fail('seekable', 'seekable() %r at %d with %d buffered',
                          r.seekable(), pos, buffered)
                try:
                    got = r.seek(off, wh)
                except IOError as e:
                    w.log('seek-refused', off, wh)
                    if may and want >= 0 and not (wh == 2 and not known):
                        _fail('seek', 'seek(%d, %d) at %d refused: %s', off,
                              wh, pos, e)
                    continue
                if not may or want < 0 or (wh == 2 and not known):
                    _fail('seek', 'seek(%d, %d) at %d accepted', off, wh,
                          pos)
                if got != want:
                    _fail('seek', 'seek(%d, %d) at %d gave %r, not %d', off,
                          wh, pos, got, want)
                pos = want
                if pos > total:
                    # beyond the end: nothing more to read
                    d = r.read(10)
                    if d:
                        _fail('wrong-bytes', 'read %r beyond the end', d)
                    return False
                continue
        except (IOError, messages.HTTPException, ValueError) as e:
            w.log(op, 'error', type(e).__name__)
            if cut:
                return True
            _fail('error', '%s at %d of %d raised %r', op, pos, total, e)
        w.log(op, len(d))
        if body[pos:pos + len(d)] != d:
            _fail('wrong-bytes', '%s at %d of %d gave %r', op, pos, total,
                  _diff(d, body[pos:pos + len(d)]))
        pos += len(d)
        if not d and full and op in ('read', 'into', 'all') and cut:
            _fail('truncated', 'end of file at %d though the body was cut '
                  'short', pos)
        if not d and full and pos < total:
            _fail('early-eof', '%s gave end of file at %d of %d', op, pos,
                  total)
        if src.pos > src.end:
            _fail('over-read', '%d bytes taken from the input, the body '
                  'ends at %d', src.pos, src.end)
    if cut:
        # read on to the end: it must not look complete
        try:
            while True:
                d = r.read(1000)
                if body[pos:pos + len(d)] != d:
                    _fail('wrong-bytes', 'cut body gave %r', _diff(
                        d, body[pos:pos + len(d)]))
                pos += len(d)
                if not d:
                    _fail('truncated', 'end of file at %d though the body '
                          'was cut short', pos)
        except (IOError, messages.HTTPException, ValueError):
            return True
    return False


def wrapper(w):
    w.randomize_sched()
    body = body_bytes(w, w.pick((0, 1, 5, 40, 300, 2000, 9000)))
    framing = w.pick(('length', 'chunked', 'eof'))
    seek_size = w.pick((0, 1, 10, 100, 8192))
    env = {}
    if framing == 'length':
        env['CONTENT_LENGTH'] = str(len(body))
        enc = body
        if w.chance(0.2):
            env['HTTP_TRANSFER_ENCODING'] = 'identity'
    elif framing == 'chunked':
        env['HTTP_TRANSFER_ENCODING'] = w.pick(('chunked', 'Chunked'))
        if w.chance(0.3):
            env['CONTENT_LENGTH'] = w.pick(('', '3', '100000'))
        enc = httpref.chunked(
            body, [w.pick((1, 2, 10, 100, 5000)) for _ in range(w.draw(6))],
            w.pick((b'', b';x=1')),
            [(b'X-T', b'1')] * w.draw(3))
    else:
        if w.chance(0.3):
            env['CONTENT_LENGTH'] = ''
        enc = body
    cut = False
    data = enc
    end = len(enc)
    if framing != 'eof':
        if w.chance(0.3) and len(enc):
            cut = True
            k = w.draw(len(enc), 'cut')
            data = enc[:k]
            end = k
            w.count_fault('truncated')
        else:
            data = enc + w.pick((b'', b'GET /next HTTP/1.1\r\n\r\n', b'\r\n'))
    use_pipe = framing != 'length' and data == enc and w.chance(0.4) or \
        cut and w.chance(0.4)
    if use_pipe:
        src = PipeInput(w, data)
    else:
        src = Input(w, data, end, w.draw(2))
    env['wsgi.input'] = src
    w.log('wrap', framing, len(body), seek_size, cut, use_pipe)
    try:
        r = messages.WSGIInputWrapper(env, seek_size)
    except (IOError, messages.HTTPException, ValueError) as e:
        if cut:
            return
        _fail('error', 'wrapper raised %r', e)
    if src.pos > src.end:
        _fail('over-read', 'constructor took %d bytes, body ends at %d',
              src.pos, src.end)
    if cut and framing == 'chunked':
        # was everything but the final CRLFs there?
        ref = httpref.parse(httpref.head(
            b'POST / HTTP/1.1', [(b'Transfer-Encoding', b'chunked')]) + data)
        if ref.complete:
            cut = False
    err = read_ops(w, r, body, src, seek_size, framing == 'length', cut)
    w.log('done', err)


def reader(w):
    """ChunkedReader on its own."""
    w.randomize_sched()
    body = body_bytes(w, w.pick((0, 1, 5, 40, 300, 2000, 9000)))
    enc = httpref.chunked(
        body, [w.pick((1, 2, 10, 100, 5000)) for _ in range(w.draw(6))],
        w.pick((b'', b';x=1', b'; y="z"')), [(b'X-T', b'1')] * w.draw(3))
    cut = w.chance(0.4)
    if cut:
        k = w.draw(len(enc), 'cut')
        data = enc[:k]
        end = k
        w.count_fault('truncated')
    else:
        data = enc + b'GET /next HTTP/1.1\r\n\r\n'
        end = len(enc)
    src = Input(w, data, end, w.draw(2))
    r = messages.ChunkedReader(src)
    if w.draw(2):
        f = io.BufferedReader(r, w.pick((1, 10, 8192)))
    else:
        f = r
    out = []
    pos = 0
    ended = False
    for _ in range(100000):
        n = w.pick((1, 2, 3, 10, 100, 8192))
        try:
            d = f.read(n)
        except (IOError, messages.HTTPException, ValueError) as e:
            if not cut:
                _fail('error', 'read(%d) at %d raised %r', n, pos, e)
            w.log('error', pos)
            ended = True
            break
        if d is None:
            _fail('blocked', 'read returned None on a blocking input')
        if body[pos:pos + len(d)] != d:
            _fail('wrong-bytes', 'read(%d) at %d: %r', n, pos,
                  _diff(d, body[pos:pos + len(d)]))
        pos += len(d)
        if src.pos > src.end:
            _fail('over-read', '%d bytes taken, body ends at %d', src.pos,
                  src.end)
        if not d:
            if cut and f is r:
                _fail('truncated', 'end of file at %d of %d though the '
                      'input was cut', pos, len(body))
            if cut:
                _fail('truncated', 'end of file though the input was cut')
            if pos != len(body):
                _fail('early-eof', 'end of file at %d of %d', pos,
                      len(body))
            ended = True
            break
    if not ended:
        _fail('stuck', 'no end of file')
    if not cut and f.read(5) not in (b'', None):
        _fail('wrong-bytes', 'data after end of file')
    if not cut and src.pos != src.end:
        _fail('consumed', '%d of %d bytes of the encoded body taken',
              src.pos, src.end)
    w.log('done', len(body), cut)


CHECK = Check(
    'C05', [Scenario('wrapper', wrapper, quick=7000),
            Scenario('reader', reader, quick=3000)],
    rule='A random body, framing, input fragmentation and truncation point '
    'behind the request body readers, driven by random read, readline, '
    'iteration and seek calls and compared with the body.',
    real=['messages.WSGIInputWrapper', 'messages.ChunkedReader',
          'streams.Pipe (some runs)'],
    stub=['wsgi.input'],
    faults=['short-read', 'truncated'])
