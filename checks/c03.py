"""BufferedStreamWrapper over hostile sources (C03)."""
import errno
import io

from sim.core import Violation
from sim.runner import Check, Scenario
from pyslet import streams


def _fail(kind, msg, **kw):
    raise Violation(kind, msg, **kw)


class Source(object):

    """A read()-only source that fragments, blocks and fails as drawn."""

    def __init__(self, w, data, p_block, p_err, frag, init_blocks):
        self.w = w
        self.data = data
        self.pos = 0
        self.p_block = p_block
        self.p_err = p_err
        self.frag = frag
        self.initial = True
        self.init_blocks = init_blocks
        self.blocked_initially = False
        self.last = None
        self.eof_seen = False

    def read(self, n=-1):
        w = self.w
        w.yield_point('src.read')
        pb = self.p_block if (not self.initial or self.init_blocks) else 0
        if w.fault('would-block', pb):
            self.last = 'block'
            if self.initial:
                self.blocked_initially = True
            return None
        if not self.initial and w.fault('read-error', self.p_err):
            self.last = 'error'
            raise IOError(errno.EIO, 'injected')
        left = len(self.data) - self.pos
        if n is None or n < 0:
            n = left
        k = min(n, left)
        if k > 1 and self.frag:
            f = w.draw(k, 'frag')
            if f:
                w.count_fault('short-read')
                k = f
        d = self.data[self.pos:self.pos + k]
        self.pos += k
        self.last = 'data' if d else 'eof'
        if not d:
            self.eof_seen = True
        return d


class PipeSource(object):

    """read() on a real Pipe filled by another thread."""

    def __init__(self, p):
        self.p = p
        self.blocked_initially = False
        self.initial = True
        self.last = None
        self.eof_seen = False

    def read(self, n):
        r = self.p.read(n)
        if r is None:
            self.last = 'block'
            if self.initial:
                self.blocked_initially = True
        elif r:
            self.last = 'data'
        else:
            self.last = 'eof'
            self.eof_seen = True
        return r


def drive(w, src, data, bsz, nops):
    b = streams.BufferedStreamWrapper(src, bsz)
    src.initial = False
    seekable = b.seekable()
    w.log('open', len(data), bsz, seekable, b.length)
    if not b.readable() or b.writable():
        _fail('mode', 'readable() or writable() is wrong')
    # it may claim to be seekable only if it really saw the whole source
    want = src.eof_seen and not src.blocked_initially
    if seekable != want:
        _fail('seekable', 'seekable() is %r for %d bytes in a buffer of %d, '
              'end of source %sseen during construction, block %sseen' % (
                  seekable, len(data), bsz, '' if src.eof_seen else 'not ',
                  '' if src.blocked_initially else 'not '))
    if len(data) < bsz and not src.blocked_initially and not seekable:
        _fail('seekable', 'not seekable though all %d bytes fit in %d' % (
            len(data), bsz))
    if b.length != (len(data) if seekable else None):
        _fail('length', 'length is %r for %d bytes, seekable %r' % (
            b.length, len(data), seekable))
    pos = 0
    ref = io.BytesIO(data)
    for _ in range(nops):
        op = w.weighted(((8, 'read'), (5, 'into'), (4, 'peek'), (4, 'seek'),
                         (2, 'tell'), (1, 'readall'), (2, 'readline')))
        src.last = None
        try:
            if op == 'read':
                n = w.pick((1, 2, 3, 5, 8, 20, 100))
                r = b.read(n)
            elif op == 'into':
                n = w.pick((0, 1, 2, 3, 5, 8, 20, 100))
                ba = bytearray(b'\xff' * n)
                r = b.readinto(ba)
                if r is not None:
                    if len(ba) != n or bytes(ba[r:]) != b'\xff' * (n - r):
                        _fail('readinto', 'buffer resized or over-written')
                    r = bytes(ba[:r])
            elif op == 'readline':
                n = 1000
                if src.__class__ is PipeSource or src.p_block or src.p_err:
                    continue    # readline cannot report a block
                r = b.readline()
                line = data[pos:].split(b'\n')[0]
                full = line + (b'\n' if pos + len(line) < len(data) else b'')
                if r != full:
                    _fail('wrong-bytes', 'readline gave %r, expected %r' % (
                        r, full))
                pos += len(r)
                continue
            elif op == 'readall':
                n = 1 << 30
                if getattr(src, 'p_err', 0):
                    continue    # io.RawIOBase.readall drops what it had
                r = b.read()
                if r is not None and not src.last == 'block' and \
                        r != data[pos:]:
                    _fail('wrong-bytes', 'read() gave %d bytes, %d remain' %
                          (len(r), len(data) - pos))
            elif op == 'peek':
                n = w.pick((1, 3, 10, 50))
                r = b.peek(n)
                w.log('peek', n, len(r))
                if data[pos:pos + len(r)] != r or len(r) > n:
                    _fail('peek', 'peek(%d) at %d gave %r, expected %r' % (
                        n, pos, r, data[pos:pos + n]))
                if seekable and len(r) != min(n, max(0, len(data) - pos)):
                    _fail('peek', 'peek(%d) gave %d of %d buffered bytes' % (
                        n, len(r), len(data) - pos))
                if src.last is not None:
                    _fail('peek', 'peek read from the source')
                continue
            elif op == 'tell':
                if seekable:
                    if b.tell() != pos:
                        _fail('tell', 'tell() is %r, position is %d' % (
                            b.tell(), pos))
                else:
                    try:
                        r = b.tell()
                    except (io.UnsupportedOperation, OSError):
                        continue
                    _fail('tell', 'tell() on an unseekable stream gave %r' %
                          r)
                continue
            else:
                wh = w.draw(3)
                off = w.between(-5, len(data) + 5)
                if wh == 1:
                    off -= pos
                elif wh == 2:
                    off -= len(data)
                if not seekable:
                    try:
                        r = b.seek(off, wh)
                    except (io.UnsupportedOperation, OSError):
                        continue
                    _fail('seek', 'seek on an unseekable stream gave %r' % r)
                want = (0, pos, len(data))[wh] + off
                try:
                    r = b.seek(off, wh)
                except (ValueError, OSError):
                    r = 'refused'
                w.log('seek', off, wh, r)
                if want < 0:
                    if r != 'refused':
                        _fail('seek', 'seek to %d was accepted' % want)
                elif r != want:
                    _fail('seek', 'seek to %d returned %r' % (want, r))
                else:
                    pos = want
                continue
        except (IOError, OSError) as e:
            w.log(op, 'error', str(e))
            if src.last != 'error':
                raise
            continue
        w.log(op, n, None if r is None else len(r))
        if r is None:
            if src.last != 'block':
                _fail('false-block', '%s reported a block the source did not '
                      'report' % op)
            continue
        if len(r) > n:
            _fail('read-long', '%s(%d) gave %d bytes' % (op, n, len(r)))
        if data[pos:pos + len(r)] != r:
            _fail('wrong-bytes', '%s(%d) at %d gave %r, expected %r' % (
                op, n, pos, r[:40], data[pos:pos + n][:40]))
        if not r and n and pos < len(data):
            _fail('false-eof', '%s(%d) reported end of file at %d of %d' % (
                op, n, pos, len(data)))
        pos += len(r)
    # drain: nothing is missing at the end
    if hasattr(src, 'p_err'):
        src.p_err = 0
    for _ in range(100000):
        r = b.read(w.pick((1, 7, 64)))
        if r is None:
            w.sleep(0.1)
            continue
        if not r:
            break
        if data[pos:pos + len(r)] != r:
            _fail('wrong-bytes', 'drain at %d gave %r' % (pos, r))
        pos += len(r)
    if pos < len(data):
        _fail('lost-bytes', 'end of file at %d of %d' % (pos, len(data)))


def mk(w):
    n = w.pick((0, 1, 2, 5, 9, 17, 60, 200))
    if n:
        n += w.draw(3)
    return bytes(w.pick(b'abc\n\r\x00\xff') for _ in range(n))


def faulty(w):
    data = mk(w)
    bsz = w.pick((1, 2, 4, 8, 16, 64, 256, max(1, len(data)), len(data) + 1))
    src = Source(w, data, w.pick((0, 0, 0.1, 0.4)), w.pick((0, 0, 0.1)),
                 w.draw(2), w.draw(2))
    drive(w, src, data, bsz, w.between(1, 40))


def piped(w):
    w.randomize_sched()
    data = mk(w)
    bsz = w.pick((1, 4, 16, 64, len(data) + 1))
    nb = w.draw(2)
    p = streams.Pipe(bsize=w.pick((1, 3, 10, 100)), rblocking=not nb)

    def writer():
        pos = 0
        while pos < len(data):
            d = data[pos:pos + w.between(1, 20, 'wr')]
            pos += p.write(bytearray(d) if w.draw(2, 'wr') else d)
            if w.draw(3, 'wr') == 0:
                w.sleep(0.3)
        p.write_eof()

    w.spawn(writer, 'writer')
    if nb:
        w.sleep(w.pick((0, 0.2, 5)))
    drive(w, PipeSource(p), data, bsz, w.between(1, 30))


CHECK = Check(
    'C03',
    [Scenario('faulty', faulty, 12000), Scenario('piped', piped, 6000)],
    rule='A random source (content, fragmentation, blocks, errors; or a real '
    'Pipe filled by another thread) behind a BufferedStreamWrapper, driven '
    'by random read, readinto, readline, readall, peek, seek and tell calls '
    'and compared with the source bytes.',
    real=['pyslet.streams.BufferedStreamWrapper', 'pyslet.streams.Pipe'],
    stub=['the source file object (faulty)', 'threads and clock (piped)'],
    faults=['would-block', 'short-read', 'read-error'],
    line_files=('pyslet/streams.py',))
