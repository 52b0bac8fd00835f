"""Workloads and oracles for pyslet.streams.Pipe (C01, C02)."""
import errno
import io
import threading

from sim.core import Violation
from pyslet import streams
from pyslet.streams import Pipe

SLACK = 0.002


def _fail(kind, msg, **kw):
    raise Violation(kind, msg, **kw)


def mkdata(w, n, alphabet=None):
    """n bytes; small alphabets make delimiters frequent."""
    if alphabet is None:
        return bytes((w.draw(256) for _ in range(n)))
    return bytes(alphabet[w.draw(len(alphabet))] for _ in range(n))


# --------------------------------------------------------------- sequential
def seq(w):
    """One thread, exact model after every operation."""
    w.randomize_sched(p_switch=(0.0,), line_mean=(0,))
    bmax = w.pick((1, 2, 3, 5, 8, 13, 32))
    tmo = w.pick((None, 0, 0.5, 3))
    p = Pipe(bsize=bmax, rblocking=False, wblocking=False, timeout=tmo,
             name='p')
    rflag = threading.Event()
    p.set_rflag(rflag)
    pend = b''            # accepted, not yet read
    eof = closed = False
    rblock = wblock = False
    ab = b'ab\r\nX'
    nops = w.between(1, 40)
    accepted = delivered = 0

    def timed(fn, *a):
        t0 = w.now
        try:
            return ('ok', fn(*a)), w.now - t0
        except (IOError, OSError) as e:
            return ('err', e.errno), w.now - t0
        except ValueError as e:
            return ('val', str(e)), w.now - t0

    for step in range(nops):
        op = w.weighted(((10, 'write'), (4, 'writeba'), (2, 'writemv'),
                         (9, 'read'), (5, 'readinto'), (6, 'match'),
                         (4, 'query'), (1, 'eof'), (1, 'close'),
                         (2, 'flush'), (2, 'mode'), (2, 'waits'),
                         (1, 'readall'), (1, 'rflag')))
        full = bmax - len(pend) <= 0
        if op in ('write', 'writeba', 'writemv'):
            d = mkdata(w, w.pick((0, 1, 1, 2, 3, 5, 9, 20)), ab)
            arg = d
            if op == 'writeba':
                arg = bytearray(d)
            elif op == 'writemv':
                arg = memoryview(d)
            if wblock and full and not (eof or closed) and tmo is None:
                continue           # would block for ever alone
            r, dt = timed(p.write, arg)
            w.log(op, len(d), r, len(pend))
            if eof or closed:
                if r != ('err', errno.EPIPE):
                    _fail('write-after-eof', 'write after EOF/close gave %r'
                          % (r,))
            elif full:
                if wblock:
                    check_timeout(w, 'write', r, dt, tmo)
                elif r != ('ok', None):
                    _fail('nonblocking-write', 'write to a full pipe gave %r,'
                          ' expected None' % (r,))
            else:
                space = bmax - len(pend)
                if op == 'writeba':
                    want = min(len(d), space)
                else:
                    want = len(d)
                # partial acceptance is legal only for mutable buffers
                if r != ('ok', want):
                    _fail('write-result', 'write of %d bytes with %d space '
                          'gave %r' % (len(d), space, r))
                pend += d[:want]
                accepted += want
                if op == 'writeba' and arg:
                    # the caller may reuse its buffer: a copy must be kept
                    for i in range(len(arg)):
                        arg[i] = 0x7e
            if dt > SLACK and not (wblock and full):
                _fail('blocked', 'write blocked %.3fs' % dt)
        elif op in ('read', 'readinto'):
            n = w.pick((1, 2, 3, 7, 50))
            if rblock and not pend and not (eof or closed) and tmo is None:
                continue
            rflag.clear()
            if op == 'read':
                r, dt = timed(p.read, n)
            else:
                b = bytearray(b'\x01' * n)
                r, dt = timed(p.readinto, b)
                if r[0] == 'ok' and r[1]:
                    if len(b) != n:
                        _fail('readinto-resized', 'buffer was %d is %d' % (
                            n, len(b)))
                    r = ('ok', bytes(b[:r[1]]))
                elif r == ('ok', 0):
                    r = ('ok', b'')
            w.log(op, n, r, len(pend))
            if not pend and not (eof or closed):
                if rblock:
                    check_timeout(w, 'read', r, dt, tmo)
                elif r != ('ok', None):
                    _fail('nonblocking-read',
                          '%s of an empty pipe gave %r' % (op, r))
            elif not pend:
                if r != ('ok', b'') and not (closed and r[0] != 'ok'):
                    _fail('eof-result', '%s at EOF gave %r' % (op, r))
            else:
                if r[0] != 'ok' or not r[1]:
                    _fail('false-eof', '%s gave %r with %d bytes pending' % (
                        op, r, len(pend)))
                got = r[1]
                if len(got) > n or pend[:len(got)] != got:
                    _fail('wrong-bytes', '%s(%d) gave %r, pending %r' % (
                        op, n, got, pend))
                pend = pend[len(got):]
                delivered += len(got)
                if not rflag._flag:
                    _fail('rflag', 'successful %s did not set the reader '
                          'event' % op)
            if dt > SLACK and not rblock:
                _fail('blocked', '%s blocked %.3fs in non-blocking mode' % (
                    op, dt))
        elif op == 'match':
            m = w.pick((b'\r\n', b'a', b'ab', b'X\r'))
            pos = pend.find(m)
            if closed:
                continue
            if rblock and pos < 0 and not eof and not full and tmo is None:
                continue
            rflag.clear()
            r, dt = timed(p.readmatch, m)
            w.log('match', m, r, len(pend))
            if pos >= 0:
                want = pend[:pos + len(m)]
                if r != ('ok', want):
                    _fail('readmatch', 'readmatch(%r) gave %r, expected %r' %
                          (m, r, want))
                pend = pend[len(want):]
                delivered += len(want)
                if not rflag._flag:
                    _fail('rflag', 'readmatch did not set the reader event')
            elif eof:
                if r != ('ok', b''):
                    _fail('readmatch', 'no match at EOF gave %r' % (r,))
            elif full:
                if r != ('err', errno.ENOBUFS):
                    _fail('readmatch', 'no match with full buffer gave %r' %
                          (r,))
            elif rblock:
                check_timeout(w, 'readmatch', r, dt, tmo)
            elif r != ('ok', None):
                _fail('readmatch', 'no match gave %r, expected None' % (r,))
        elif op == 'eof':
            if not closed:
                p.write_eof()
                eof = True
                w.log('eof')
        elif op == 'close':
            if step < nops // 2:
                continue
            p.close()
            closed = True
            pend = b''
            w.log('close')
            if not rflag._flag:
                _fail('rflag', 'close did not set the reader event')
        elif op == 'flush':
            if closed:
                continue
            if wblock and pend and tmo is None:
                continue
            r, dt = timed(p.flush)
            w.log('flush', r, len(pend))
            if not pend:
                if r != ('ok', None) or dt > SLACK:
                    _fail('flush', 'flush of an empty pipe gave %r' % (r,))
            elif wblock:
                check_timeout(w, 'flush', r, dt, tmo)
            elif r[0] != 'err' or r[1] not in (errno.EWOULDBLOCK,
                                               errno.EAGAIN):
                _fail('flush', 'non-blocking flush with data gave %r' % (r,))
        elif op == 'mode':
            if w.draw(2):
                rblock = bool(w.draw(2))
                p.set_readblocking(rblock)
            else:
                wblock = bool(w.draw(2))
                p.set_writeblocking(wblock)
            w.log('mode', rblock, wblock)
        elif op == 'waits':
            t = w.pick((0, 0.25, 2))
            which = w.pick(('read', 'write', 'flush'))
            r, dt = timed(getattr(p, which + '_wait'), t)
            w.log(which + '_wait', t, r, len(pend))
            if which == 'read':
                en = bool(pend) or eof or closed
                bad = closed
            elif which == 'write':
                en = not full or eof or closed
                bad = eof or closed
            else:
                en = not pend
                bad = False
            if bad:
                if r != ('err', errno.EPIPE) or dt > SLACK:
                    _fail('wait', '%s_wait on a dead pipe gave %r after %.3f'
                          % (which, r, dt))
            elif en:
                if r[0] != 'ok' or dt > SLACK:
                    _fail('wait', '%s_wait gave %r after %.3f though ready' %
                          (which, r, dt))
            else:
                check_timeout(w, which + '_wait', r, dt, t)
        elif op == 'readall':
            if not eof or closed:
                continue
            r, dt = timed(p.read if w.draw(2) else p.readall)
            w.log('readall', r, len(pend))
            if r != ('ok', pend):
                _fail('readall', 'readall gave %r, expected %r' % (r, pend))
            delivered += len(pend)
            pend = b''
        elif op == 'rflag':
            rflag = threading.Event()
            p.set_rflag(rflag)
            if closed and not rflag._flag:
                _fail('rflag', 'set_rflag on a closed pipe left it clear')
        # queries after every step
        if p.readblocking() != rblock or p.writeblocking() != wblock:
            _fail('mode-changed', 'modes are (%r,%r) should be (%r,%r) after '
                  '%s' % (p.readblocking(), p.writeblocking(), rblock, wblock,
                          op))
        if p.buffered() != len(pend):
            _fail('buffered', 'buffered() is %d, %d bytes pending after %s' %
                  (p.buffered(), len(pend), op))
        if p.empty() != (not pend):
            _fail('empty', 'empty() is %r, %d pending' % (
                p.empty(), len(pend)))
        before = rflag._flag
        r, dt = timed(p.canwrite)
        if eof or closed:
            if r != ('err', errno.EPIPE):
                _fail('canwrite', 'canwrite after EOF gave %r' % (r,))
        else:
            want = max(0, bmax - len(pend))
            if r != ('ok', want):
                _fail('canwrite', 'canwrite() gave %r, expected %d' % (
                    r, want))
            if want == 0 and rflag._flag:
                _fail('rflag', 'canwrite()==0 left the reader event set')
            if want and before != rflag._flag:
                _fail('rflag', 'canwrite()>0 changed the reader event')
        if not closed:
            r, dt = timed(p.canread)
            if r != ('ok', bool(pend) or eof):
                _fail('canread', 'canread gave %r, pending %d eof %r' % (
                    r, len(pend), eof))
    w.count_fault('would-block')
    w.probe('delivered', delivered)


def check_timeout(w, what, r, dt, tmo, slack=SLACK):
    """An operation that nothing can release must time out at tmo."""
    if r != ('err', errno.ETIMEDOUT):
        _fail('timeout', '%s that cannot proceed gave %r after %.3fs, '
              'expected ETIMEDOUT at %r' % (what, r, dt, tmo))
    if dt < tmo - 1e-9:
        _fail('timeout-early', '%s timed out after %.6fs, before its time-out'
              ' of %r' % (what, dt, tmo))
    if dt > tmo + slack:
        _fail('timeout-late', '%s timed out after %.3fs, time-out is %r' % (
            what, dt, tmo))
    w.count_fault('timeout')


# --------------------------------------------------------------- concurrent
class Rec(object):

    """Shared record of what happened to one pipe, in global order."""

    def __init__(self, w, p, bmax):
        self.w = w
        self.p = p
        self.bmax = bmax
        self.acc = []           # (t, bytes) accepted writes, in order
        self.acc_n = 0
        self.inflight = 0       # upper bound of bytes in flight
        self.got = []           # bytes read
        self.got_n = 0
        self.rd_inflight = 0
        self.eof_t = None
        self.close_t = None
        self.eof_called = False
        self.closed_called = False
        self.stall0 = 0.0


def _slack(w):
    return SLACK + w.stall_total


def spsc(w, focus='data'):
    """A writer, a reader, sometimes an observer and a closer."""
    w.randomize_sched(p_stall=(0, 0, 0, 0.01), stall_max=0.3)
    bmax = w.pick((1, 2, 3, 5, 8, 16, 64))
    tmo = w.pick((None, None, 5.0, 1.0, 0.2))
    rb = bool(w.weighted(((4, 1), (1, 0))))
    wb = bool(w.weighted(((4, 1), (1, 0))))
    p = Pipe(bsize=bmax, rblocking=rb, wblocking=wb, timeout=tmo, name='p')
    rec = Rec(w, p, bmax)
    use_rflag = w.draw(2) and not wb
    rflag = threading.Event()
    if use_rflag:
        p.set_rflag(rflag)
    total = w.between(0, 60)
    alphabet = w.pick((None, b'ab\r\n'))
    data = mkdata(w, total, alphabet)
    style = w.pick(('sized', 'mixed', 'all', 'match', 'into'))
    slow_reader = w.draw(3) == 0
    slow_writer = w.draw(3) == 0
    early_close = w.draw(6) == 0
    close_after = w.between(0, 30)
    state = {}

    def writer():
        pos = 0
        while pos < total:
            n = w.pick((1, 1, 2, 3, 5, 10, 25), 'wr')
            d = data[pos:pos + n]
            kind = w.draw(4, 'wr')
            arg = bytearray(d) if kind == 1 else (
                memoryview(d) if kind == 2 else d)
            t0 = w.now
            rec.inflight = len(d)
            try:
                if not wb and w.draw(2, 'wr'):
                    p.write_wait(tmo)
                r = p.write(arg)
            except (IOError, OSError) as e:
                rec.inflight = 0
                dt = w.now - t0
                w.log('write-error', e.errno, round(dt, 4))
                if e.errno == errno.EPIPE:
                    if not rec.closed_called:
                        _fail('write-epipe', 'write raised EPIPE though '
                              'nobody closed the pipe')
                    return
                if e.errno == errno.ETIMEDOUT:
                    w.count_fault('timeout')
                    if tmo is None:
                        _fail('timeout', 'write timed out with no time-out '
                              'set')
                    if dt < tmo - 1e-9:
                        _fail('timeout-early', 'write timed out after %.4f' %
                              dt)
                    if dt > 2 * tmo + _slack(w):
                        _fail('timeout-late', 'write timed out after %.4f' %
                              dt)
                    if state.get('space_since') is not None and \
                            w.now - state['space_since'] > tmo + _slack(w):
                        _fail('lost-wakeup', 'write timed out though space '
                              'was free')
                    continue
                raise
            rec.inflight = 0
            dt = w.now - t0
            w.log('write', len(d), r)
            if r is None:
                if wb:
                    _fail('write-none', 'blocking write returned None')
                w.count_fault('would-block')
                if dt > (tmo or 0) + _slack(w) and tmo is not None:
                    _fail('blocked', 'non-blocking write took %.3f' % dt)
                if use_rflag:
                    # the documented pattern: ask, then wait for the flag
                    try:
                        cw = p.canwrite()
                    except (IOError, OSError):
                        continue
                    if cw == 0:
                        w.probe('rflag-wait')
                        rflag.wait()
                else:
                    w.sleep(0.01)
                continue
            if not (0 <= r <= len(d)) or (d and r == 0):
                _fail('write-result', 'write of %d gave %r' % (len(d), r))
            if kind != 1 and r != len(d):
                _fail('write-result', 'immutable write of %d gave %r' % (
                    len(d), r))
            if kind == 1:
                for i in range(len(arg)):
                    arg[i] = 0x7e
            rec.acc.append((w.now, d[:r]))
            rec.acc_n += r
            state['data_t'] = w.now
            state['space_since'] = None
            pos += r
            # a reader waiting for a delimiter that is still unwritten and a
            # writer waiting for the pipe to drain wait for each other
            if w.draw(8, 'wr') == 0 and not (
                    wb and tmo is None and style in ('match', 'mixed')):
                t0 = w.now
                try:
                    p.flush()
                    w.log('flush')
                    # with one writer nothing new can arrive, so flush may
                    # only return once everything accepted was taken
                    if rec.got_n + rec.rd_inflight < rec.acc_n and \
                            not rec.closed_called:
                        _fail('flush-early', 'flush returned with %d of %d '
                              'bytes read' % (rec.got_n, rec.acc_n))
                except (IOError, OSError) as e:
                    w.log('flush-error', e.errno)
                    if e.errno in (errno.EWOULDBLOCK, errno.EAGAIN):
                        if wb:
                            _fail('flush', 'blocking flush raised EAGAIN')
                    elif e.errno == errno.ETIMEDOUT:
                        if tmo is None or w.now - t0 < tmo - 1e-9:
                            _fail('timeout-early', 'flush timed out after '
                                  '%.4f' % (w.now - t0))
                        w.count_fault('timeout')
                    else:
                        raise
            if slow_writer and w.draw(3, 'wr') == 0:
                w.sleep(w.pick((0.05, 1.0, 3.0), 'wr'))
        rec.eof_called = True
        p.write_eof()
        rec.eof_t = w.now
        w.log('eof')

    def reader():
        consumed = 0
        deadline_fails = 0
        while True:
            if early_close and consumed >= close_after:
                rec.closed_called = True
                p.close()
                rec.close_t = w.now
                w.log('close')
                return
            op = style
            if op == 'mixed':
                op = w.pick(('sized', 'into', 'match', 'sized'), 'rd')
            if op == 'all' and not (early_close):
                t0 = w.now
                mode0 = p.readblocking()
                if tmo is not None:
                    op = 'sized'   # a time-out may drop a partial readall
                else:
                    rec.rd_inflight = 1 << 20
                    got = p.readall()
                    rec.rd_inflight = 0
                    w.log('readall', len(got))
                    if p.readblocking() != mode0:
                        _fail('mode-changed', 'readall changed the read mode')
                    check_prefix(rec, got)
                    rec.got.append(got)
                    rec.got_n += len(got)
                    if not rec.eof_called:
                        _fail('false-eof', 'readall returned before EOF')
                    return
            if op == 'all':
                op = 'sized'
            n = w.pick((1, 2, 3, 6, 20, 100), 'rd')
            t0 = w.now
            acc0 = rec.acc_n - rec.got_n
            rec.rd_inflight = rec.bmax + 100
            try:
                if w.draw(6, 'rd') == 0:
                    w.probe('read_wait')
                    p.read_wait(tmo)
                    if not (rec.acc_n + rec.inflight > rec.got_n or
                            rec.eof_called):
                        _fail('wait', 'read_wait returned with nothing to '
                              'read')
                if op == 'into':
                    b = bytearray(n)
                    r = p.readinto(b)
                    if r is not None:
                        r = bytes(b[:r])
                elif op == 'match':
                    m = w.pick((b'\r\n', b'a'), 'rd')
                    r = p.readmatch(m)
                    if r == b'' and rec.eof_called:
                        # no more matches: take the rest plainly
                        style_switch()
                        r = p.read(n)
                    elif r == b'':
                        _fail('false-eof', 'readmatch reported EOF early')
                    elif r is not None and (
                            r.find(m) != len(r) - len(m)):
                        _fail('readmatch', 'readmatch(%r) gave %r' % (m, r))
                else:
                    r = p.read(n)
            except (IOError, OSError) as e:
                rec.rd_inflight = 0
                dt = w.now - t0
                w.log('read-error', e.errno, round(dt, 4))
                if e.errno == errno.ENOBUFS and op == 'match':
                    if rec.acc_n + rec.inflight - rec.got_n < rec.bmax:
                        _fail('enobufs', 'readmatch says the buffer is full '
                              'with %d of %d bytes in it' % (
                                  rec.acc_n - rec.got_n, rec.bmax))
                    rec.rd_inflight = rec.bmax + 100
                    r = p.read(n)
                elif e.errno == errno.ETIMEDOUT:
                    w.count_fault('timeout')
                    if tmo is None:
                        _fail('timeout', 'read timed out with no time-out')
                    if dt < tmo - 1e-9:
                        _fail('timeout-early', 'read timed out after %.4f' %
                              dt)
                    if op != 'match' and dt > 2 * tmo + _slack(w):
                        _fail('timeout-late', 'read timed out after %.4f' %
                              dt)
                    if op != 'match' and acc0 > 0:
                        _fail('lost-wakeup', '%s timed out with %d bytes '
                              'available from the start' % (op, acc0))
                    continue
                else:
                    raise
            rec.rd_inflight = 0
            dt = w.now - t0
            w.log(op, n, r if r is None else len(r))
            if r is None:
                if rb:
                    _fail('read-none', 'blocking read returned None')
                if acc0 > 0 and op != 'match':
                    _fail('false-block', 'read returned None with %d bytes '
                          'pending' % acc0)
                w.count_fault('would-block')
                w.sleep(0.01)
                continue
            # promptness: data or EOF available at ta, returned by ta+slack
            if rec.got_n < rec.acc_n and op != 'match':
                # time at which byte got_n was accepted
                c = 0
                for t, d in rec.acc:
                    c += len(d)
                    if c > rec.got_n:
                        ta = t
                        break
                if w.now > max(ta, t0) + _slack(w):
                    _fail('late-wakeup', '%s returned %.3fs after its data '
                          'was available' % (op, w.now - max(ta, t0)))
            if r == b'':
                if not rec.eof_called:
                    _fail('false-eof', '%s gave EOF before EOF was written' %
                          op)
                if rec.got_n < rec.acc_n:
                    _fail('false-eof', 'EOF reported with %d of %d bytes '
                          'read' % (rec.got_n, rec.acc_n))
                if rec.eof_t is not None and \
                        w.now > max(rec.eof_t, t0) + _slack(w):
                    _fail('late-wakeup', 'EOF was noticed %.3fs late' % (
                        w.now - max(rec.eof_t, t0)))
                return
            if op != 'match' and len(r) > n:
                _fail('read-long', 'read(%d) gave %d bytes' % (n, len(r)))
            check_prefix(rec, r)
            rec.got.append(r)
            rec.got_n += len(r)
            if rec.acc_n - rec.got_n < rec.bmax and \
                    state.get('space_since') is None:
                state['space_since'] = w.now
            consumed += len(r)
            if slow_reader and w.draw(3, 'rd') == 0:
                w.sleep(w.pick((0.05, 1.0, 3.0), 'rd'))

    style_box = [style]

    def style_switch():
        style_box[0] = 'sized'

    def check_prefix(rec, r):
        # the bytes must be the next ones the writer has passed in
        want = data[rec.got_n:rec.got_n + len(r)]
        if r != want:
            _fail('wrong-bytes', 'read %r at offset %d, written %r' % (
                r[:40], rec.got_n, want[:40]))
        if rec.got_n + len(r) > rec.acc_n + rec.inflight:
            _fail('invented-bytes', 'read past what was accepted')

    def observer():
        for _ in range(w.between(1, 12, 'ob')):
            q = w.pick(('buffered', 'canwrite', 'empty', 'canread'), 'ob')
            a0, g0 = rec.acc_n, rec.got_n
            i0 = max(rec.inflight, 0)
            try:
                v = getattr(p, q)()
            except (IOError, OSError) as e:
                if e.errno != errno.EPIPE or not (
                        rec.eof_called or rec.closed_called):
                    raise
                v = 'EPIPE'
            w.log(q, v)
            hi = max(rec.acc_n + rec.inflight, a0 + i0) - g0
            lo = a0 - (rec.got_n + rec.rd_inflight)
            if rec.closed_called:
                lo = 0
            if q == 'buffered':
                if v < 0 or v > hi or v < lo:
                    _fail('buffered', 'buffered()=%r, must be in %d..%d' % (
                        v, max(lo, 0), hi))
            elif q == 'canwrite' and v != 'EPIPE':
                chi = max(0, rec.bmax - max(lo, 0))
                clo = max(0, rec.bmax - hi)
                if not clo <= v <= chi:
                    _fail('canwrite', 'canwrite()=%r must be in %d..%d' % (
                        v, clo, chi))
            w.sleep(w.pick((0, 0.01, 0.5), 'ob'))

    ts = [w.spawn(writer, 'writer'), w.spawn(reader, 'reader')]
    if w.draw(2) and not use_rflag:
        ts.append(w.spawn(observer, 'observer'))
    for t in ts:
        if not w.join(t, 600):
            _fail('no-progress', 'pipe transfer still running after 600 '
                  'simulated seconds: ' + w.blocked_desc())
    got = b''.join(rec.got)
    if not early_close or rec.close_t is None:
        if got != data:
            _fail('lost-bytes', 'read %d of %d bytes' % (len(got), total))
        w.quiet += 1
        if p.buffered() != 0:
            _fail('buffered', 'drained pipe says %d bytes buffered' %
                  p.buffered())
    elif data[:len(got)] != got:
        _fail('wrong-bytes', 'read bytes are not a prefix of those written')


# --------------------------------------------------------------- many ends
def multi(w):
    """Several writers and readers; every byte value identifies itself."""
    w.randomize_sched()
    nw = w.between(1, 3)
    nr = w.between(1, 3)
    bmax = w.pick((1, 2, 4, 8, 40))
    tmo = w.pick((None, None, 30.0))
    p = Pipe(bsize=bmax, timeout=tmo, name='m')
    per = 60 // nw
    sent = {}
    got = []
    left = [nw]

    def writer(k):
        base = 1 + k * 80
        seq = bytes(range(base, base + per))
        pos = 0
        while pos < per:
            d = seq[pos:pos + w.pick((1, 2, 5), 'w%d' % k)]
            if w.draw(2, 'w%d' % k):
                r = p.write(d)
            else:
                r = p.write(bytearray(d))
            w.log('write', k, len(d), r)
            if not r or r > len(d):
                _fail('write-result', 'write gave %r' % r)
            pos += r
        sent[k] = seq
        left[0] -= 1
        if left[0] == 0:
            p.write_eof()
            w.log('eof')

    def reader(k):
        mine = []
        while True:
            n = w.pick((1, 3, 10), 'r%d' % k)
            how = w.draw(3, 'r%d' % k)
            if how == 0:
                b = bytearray(n)
                r = p.readinto(b)
                r = bytes(b[:r])
            elif how == 1:
                try:
                    r = p.readmatch(bytes([w.between(1, 240, 'r%d' % k)]))
                    if r == b'':
                        if left[0]:
                            _fail('false-eof', 'readmatch EOF early')
                        r = p.read(n)
                except (IOError, OSError) as e:
                    if e.errno != errno.ENOBUFS:
                        raise
                    r = p.read(n)
            else:
                r = p.read(n)
            w.log('read', k, n, len(r))
            if r == b'':
                if left[0]:
                    _fail('false-eof', 'EOF before all writers finished')
                break
            mine.append(r)
        got.append(mine)

    ts = [w.spawn(lambda k=k: writer(k), 'w%d' % k) for k in range(nw)]
    ts += [w.spawn(lambda k=k: reader(k), 'r%d' % k) for k in range(nr)]
    for t in ts:
        if not w.join(t, 600):
            _fail('no-progress', 'transfer still running: ' +
                  w.blocked_desc())
    allb = sorted(b for m in got for r in m for b in r)
    want = sorted(b for s in sent.values() for b in s)
    if allb != want:
        _fail('lost-bytes' if len(allb) < len(want) else 'duplicated-bytes',
              'read %d bytes, wrote %d; differing %r' % (
                  len(allb), len(want),
                  sorted(set(want) ^ set(allb))[:10]))
    for m in got:
        # within one reader each writer's bytes appear in increasing order
        last = {}
        for b in (b for r in m for b in r):
            k = (b - 1) // 80
            if last.get(k, 0) >= b:
                _fail('reordered', 'writer %d bytes out of order' % k)
            last[k] = b
    if nr == 1:
        for k in sent:
            s = bytes(b for r in got[0] for b in r if (b - 1) // 80 == k)
            if s != sent[k]:
                _fail('reordered', 'stream of writer %d differs' % k)
    w.quiet += 1
    if p.buffered() != 0:
        _fail('buffered', 'drained pipe says %d buffered' % p.buffered())


# --------------------------------------------------------------- liveness
def liveness(w):
    """Threads blocked in one operation each, then one releasing act."""
    w.randomize_sched(p_stall=(0, 0, 0.02), stall_max=0.2)
    tmo = w.pick((None, None, 2.0, 10.0))
    bmax = w.pick((1, 3, 8))
    rb = True
    p = Pipe(bsize=bmax, timeout=tmo, name='l')
    rflag = threading.Event()
    p.set_rflag(rflag)
    fill = w.draw(2)
    if fill:
        p.write(b'x' * bmax)
        blockers = ['write', 'write_wait', 'flush', 'flush_wait', 'rflag']
    else:
        blockers = ['read', 'readinto', 'readmatch', 'read_wait', 'readall']
    n = w.between(1, 3)
    chosen = [w.pick(blockers) for _ in range(n)]
    if 'readall' in chosen:
        chosen = ['readall']
    act = w.pick(('io', 'io', 'eof', 'close', 'none') if tmo is not None else
                 ('io', 'io', 'eof', 'close'))
    if fill and act == 'eof':
        act = 'io'
    if chosen == ['readall'] and act == 'io':
        act = w.pick(('eof', 'close'))
    delay = w.pick((0.1, 0.5, 1.0))
    at = [None]
    nl_t = [None]
    res = {}

    def run(i, op):
        t0 = w.now
        r = None
        try:
            if op == 'write':
                r = p.write(b'y')
            elif op == 'write_wait':
                r = p.write_wait(tmo)
            elif op == 'flush':
                r = p.flush()
            elif op == 'flush_wait':
                r = p.flush_wait(tmo)
            elif op == 'rflag':
                if p.canwrite() == 0:
                    # released by a reader or by close, never by time
                    r = rflag.wait(tmo)
            elif op == 'read':
                r = p.read(5)
            elif op == 'readinto':
                r = p.readinto(bytearray(5))
            elif op == 'readmatch':
                r = p.readmatch(b'\n')
            elif op == 'read_wait':
                r = p.read_wait(tmo)
            elif op == 'readall':
                r = p.readall()
            res[i] = ('ok', r, t0, w.now)
        except (IOError, OSError) as e:
            res[i] = ('err', e.errno, t0, w.now)
        except ValueError as e:
            # operation on a closed file
            res[i] = ('err', errno.EPIPE, t0, w.now)
        w.log(op, res[i][:2], round(res[i][3] - res[i][2], 4))

    ts = [w.spawn(lambda i=i, op=op: run(i, op), '%s%d' % (op, i))
          for i, op in enumerate(chosen)]
    w.sleep(delay)
    nr = nw_ = 0
    if act == 'io':
        # enough of the other side's work to release everybody
        if fill:
            at[0] = w.now
            for _ in range(len(chosen) * 2 + 2):
                p.set_readblocking(False)
                p.read(bmax)
        else:
            at[0] = w.now
            for _ in range(len(chosen) + 1):
                p.set_writeblocking(False)
                d = w.pick((b'abc\n', b'a', b'\n'))
                if b'\n' in d and nl_t[0] is None:
                    nl_t[0] = w.now
                p.write(d)
                if w.draw(2):
                    w.sleep(0.01)
                else:
                    w.yield_point()
    elif act == 'eof':
        at[0] = w.now
        p.write_eof()
    elif act == 'close':
        at[0] = w.now
        p.close()
    w.log('act', act)
    act_end = w.now
    for i, t in enumerate(ts):
        # a reader can be left with nothing when others took the data
        op = chosen[i]
        limit = (tmo or 0) + 30
        if act == 'io' and tmo is None:
            # keep supplying until everyone is out
            for _ in range(40):
                if w.join(t, 0.05):
                    break
                p.set_readblocking(False)
                p.set_writeblocking(False)
                if fill:
                    p.read(bmax)
                else:
                    p.write(b'abc\n')
            else:
                _fail('lost-wakeup', '%s never returned though the other side'
                      ' kept going' % op)
        elif not w.join(t, limit):
            _fail('lost-wakeup' if act != 'none' else 'timeout-late',
                  '%s still blocked %ds after %s' % (op, limit, act))
        st, r, t0, t1 = res[i]
        dt = t1 - t0
        slack = _slack(w)
        if st == 'err' and r == errno.ETIMEDOUT or (
                op == 'rflag' and r is False):
            if tmo is None:
                _fail('timeout', '%s timed out, none set' % op)
            if dt < tmo - 1e-9:
                _fail('timeout-early', '%s timed out at %.4f of %.1f' % (
                    op, dt, tmo))
            if dt > tmo + slack + (max(0, act_end - t0) if op in (
                    'flush', 'readmatch') else 0):
                _fail('timeout-late', '%s timed out at %.4f of %.1f' % (
                    op, dt, tmo))
            w.count_fault('timeout')
            if act in ('eof', 'close') and at[0] + slack < t0 + tmo:
                _fail('lost-wakeup', '%s timed out though %s came first' % (
                    op, act))
        elif act in ('eof', 'close') and t1 > max(at[0], t0) + slack:
            _fail('late-wakeup', '%s returned %.3fs after %s' % (
                op, t1 - at[0], act))
        elif act == 'none' and st == 'ok' and chosen == [op] and \
                not (op == 'readmatch' and r is None):
            _fail('spurious', '%s returned %r with nothing to release it' % (
                op, r))
        elif act == 'io' and n == 1 and at[0] is not None and \
                t1 > max(nl_t[0] if op == 'readmatch' and nl_t[0] else at[0],
                         t0) + slack and tmo is None and \
                not (op == 'readmatch' and nl_t[0] is None) and \
                op not in ('flush', 'flush_wait'):
            _fail('late-wakeup', '%s returned %.3fs after the other side '
                  'acted' % (op, t1 - at[0]))
        if act == 'close' and op in ('write', 'write_wait') and not (
                st == 'err' and r == errno.EPIPE) and not (
                    st == 'err' and r == errno.ETIMEDOUT):
            _fail('write-after-eof', '%s on a closed pipe gave %r' % (
                op, (st, r)))
    if act == 'close':
        if not rflag._flag:
            _fail('rflag', 'close left the reader event clear')


def rflag_pattern(w):
    """Non-blocking writer that sleeps on the reader event when full."""
    w.randomize_sched()
    bmax = w.pick((1, 2, 4, 9))
    rb = bool(w.draw(2))
    p = Pipe(bsize=bmax, rblocking=rb, wblocking=False,
             timeout=w.pick((None, 50.0)), name='f')
    rflag = threading.Event()
    p.set_rflag(rflag)
    total = w.between(1, 40)
    data = mkdata(w, total, b'abc\n')
    how = w.pick(('read', 'readinto', 'match', 'mixed'))
    stop_at = w.between(1, total) if w.draw(4) == 0 else None
    out = []

    def writer():
        pos = 0
        while pos < total:
            try:
                n = p.canwrite()
            except (IOError, OSError):
                return
            if n == 0:
                w.probe('rflag-wait')
                rflag.wait()
                continue
            d = data[pos:pos + n]
            try:
                r = p.write(d if w.draw(2, 'wr') else bytearray(d))
            except (IOError, OSError) as e:
                if stop_at is None:
                    raise
                return
            w.log('write', len(d), r)
            if r is None:
                _fail('canwrite', 'write of %d refused after canwrite()=%d '
                      'with a single writer' % (len(d), n))
            if r != len(d):
                _fail('canwrite', 'canwrite()=%d but write of %d accepted %d'
                      % (n, len(d), r))
            pos += r
        p.write_eof()

    def reader():
        got = 0
        while True:
            if stop_at is not None and got >= stop_at:
                p.close()
                w.log('close')
                return
            op = how if how != 'mixed' else w.pick(
                ('read', 'readinto', 'match'), 'rd')
            if op == 'match':
                try:
                    r = p.readmatch(b'\n')
                    if r == b'':
                        r = p.read(3)
                except (IOError, OSError) as e:
                    if e.errno != errno.ENOBUFS:
                        raise
                    r = p.read(3)
            elif op == 'read':
                r = p.read(w.pick((1, 2, 9), 'rd'))
            else:
                b = bytearray(w.pick((1, 2, 9), 'rd'))
                r = p.readinto(b)
                if r is not None:
                    r = bytes(b[:r])
            w.log(op, r if r is None else len(r))
            if r is None:
                w.count_fault('would-block')
                w.sleep(0.01)
                continue
            if r == b'':
                return
            out.append(r)
            got += len(r)

    a = w.spawn(writer, 'writer')
    b = w.spawn(reader, 'reader')
    for t in (a, b):
        if not w.join(t, 1000):
            _fail('lost-wakeup', 'writer waiting on the reader event was '
                  'never released: ' + w.blocked_desc())
    g = b''.join(out)
    if (stop_at is None and g != data) or data[:len(g)] != g:
        _fail('wrong-bytes', 'read %r of %r' % (g, data))
