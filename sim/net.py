"""Simulated TCP network behind the socket and select modules.

Byte streams between simulated sockets with seeded latency, fragmentation,
small windows, stalls, resets, black holes, refused connections and name
resolution failures.  As on a real TCP connection, bytes of one direction are
never reordered, duplicated or altered; they can be late, lost with the
connection, or cut off.
"""
import errno
import io
import os
import select
import socket

from . import core

_real = {}


class Profile(object):

    """The weather on the network; scenarios set the attributes."""

    def __init__(self, **kw):
        self.latency = (0.0, 0.002)     # uniform per segment
        self.frag = 0                   # 0 none, 1 some, 2 byte by byte
        self.window = 1 << 20           # bytes in flight + unread
        self.p_partial = 0.0            # send takes only part
        self.p_eagain = 0.0             # non-blocking send refuses once
        self.p_spurious = 0.0           # select says ready though it is not
        self.p_stall = 0.0              # a segment is delayed a lot
        self.stall = (0.5, 3.0)
        self.p_refuse = 0.0
        self.p_dns = 0.0
        self.p_reset = 0.0              # connection is cut at a random byte
        self.p_blackhole = 0.0          # goes silent at a random byte
        self.p_fin = 0.0                # orderly close at a random byte
        self.cut_within = 600           # ... among the first N bytes
        self.connect_latency = (0.0, 0.01)
        self.off_after = None           # no faults after this time
        self.__dict__.update(kw)

    def active(self, w):
        return self.off_after is None or w.now < self.off_after


class Half(object):

    """One direction of a connection."""

    def __init__(self, net, name):
        self.net = net
        self.name = name
        self.avail = bytearray()        # delivered, unread
        self.flight = 0
        self.fin = False                # delivered FIN
        self.fin_sent = False
        self.reset = False              # delivered RST
        self.last_at = 0.0
        self.sent = 0
        self.delivered = 0
        self.read = 0
        self.dead = False               # nothing is delivered any more
        self.cut_at = None              # (byte offset, kind)
        self.no_reader = False
        self.conn = None

    def outstanding(self):
        return self.flight + len(self.avail)

    def space(self):
        return max(0, self.net.profile.window - self.outstanding())

    def push(self, data):
        w = self.net.w
        pr = self.net.profile
        self.sent += len(data)
        pos = 0
        while pos < len(data):
            n = len(data) - pos
            if pr.frag and n > 1:
                if pr.frag >= 2:
                    n = 1 + w.ch.draw('net', min(n, 7))
                else:
                    n = 1 + w.ch.draw('net', n)
                if n < len(data) - pos:
                    w.faults['fragment'] = w.faults.get('fragment', 0) + 1
            seg = data[pos:pos + n]
            pos += n
            self.flight += len(seg)
            self._schedule(('data', bytes(seg)))

    def _schedule(self, item):
        w = self.net.w
        pr = self.net.profile
        lat = pr.latency[0]
        if pr.latency[1] > pr.latency[0]:
            lat += (pr.latency[1] - pr.latency[0]) * w.ch.draw(
                'net', 101) / 100.0
        if pr.active(w) and pr.p_stall and w.ch.chance('net', pr.p_stall):
            w.count_fault('net-stall')
            lat += pr.stall[0] + (pr.stall[1] - pr.stall[0]) * w.ch.draw(
                'net', 101) / 100.0
        at = max(self.last_at, w.now + lat)
        self.last_at = at
        w.call_later(at - w.now, lambda: self._deliver(item))

    def push_fin(self):
        if not self.fin_sent:
            self.fin_sent = True
            self._schedule(('fin', None))

    def push_reset(self):
        self._schedule(('rst', None))

    def _deliver(self, item):
        kind, seg = item
        if self.dead:
            # lost, and never acknowledged: it fills the window for good
            return
        if kind == 'data':
            self.flight -= len(seg)
            if self.cut_at is not None and \
                    self.delivered + len(seg) >= self.cut_at[0]:
                k, what = self.cut_at
                keep = seg[:k - self.delivered]
                self.delivered += len(keep)
                self.avail += keep
                self.cut_at = None
                self.conn.cut(self, what)
                self.net.wake()
                return
            self.delivered += len(seg)
            if self.no_reader:
                # the receiver closed its socket: it answers with a reset
                self.conn.bounce(self)
            else:
                self.avail += seg
        elif kind == 'fin':
            self.fin = True
        else:
            self.reset = True
        self.net.wake()


class Conn(object):

    def __init__(self, net, cid):
        self.net = net
        self.id = cid
        self.c2s = Half(net, 'c2s%d' % cid)
        self.s2c = Half(net, 's2c%d' % cid)
        self.c2s.conn = self.s2c.conn = self
        self.client = None
        self.server = None
        self.meta = {}
        self.cuts = []

    def cut(self, half, what):
        w = self.net.w
        w.count_fault('net-' + what)
        w.note('network: %s on %s after %d bytes' % (
            what, half.name, half.delivered))
        self.cuts.append((what, half.name, half.delivered, w.now))
        if what == 'reset':
            for h in (self.c2s, self.s2c):
                h.dead = True
                h.reset = True
        elif what == 'blackhole':
            for h in (self.c2s, self.s2c):
                h.dead = True
        elif what == 'fin':
            # an intermediary closes both ways, in order
            half.fin = True
            half.dead = True
            other = self.s2c if half is self.c2s else self.c2s
            other.push_fin()
            other.fin_sent = True

    def bounce(self, half):
        other = self.s2c if half is self.c2s else self.c2s
        if not other.dead and not other.reset:
            other.push_reset()


class Net(object):

    def __init__(self, w, profile=None):
        self.w = w
        self.profile = profile or Profile()
        self.listeners = {}
        self.conns = []
        self.socks = {}
        self.next_fd = 1000
        self.waiters = []
        self.hosts = {}
        self.open_client = 0
        self.peak_client = {}
        self.on_connect = None
        self.io_hook = None
        w.net = self

    def wake(self):
        ws, self.waiters = self.waiters, []
        for t in ws:
            self.w.wake(t)

    def wait(self, why, timeout=None):
        """Block until something on the network changes."""
        me = self.w.current
        self.waiters.append(me)
        ok = self.w.block(why, timeout)
        if me in self.waiters:
            self.waiters.remove(me)
        return ok

    def new_fd(self, s):
        self.next_fd += 1
        self.socks[self.next_fd] = s
        return self.next_fd

    def clear_faults(self):
        """Faults stop: black holes and stalls of existing connections stay
        as they are, new traffic is undisturbed."""
        p = self.profile
        p.p_stall = p.p_refuse = p.p_dns = p.p_reset = 0
        p.p_blackhole = p.p_fin = p.p_eagain = 0
        for c in self.conns:
            c.c2s.cut_at = c.s2c.cut_at = None

    def open_sockets(self, role='client'):
        return [s for s in self.socks.values()
                if s.role == role and not s._closed]


class SimSocket(object):

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM,
                 proto=0, fileno=None):
        w = core.WORLD
        self.net = w.net
        self.w = w
        self.family = family
        self.type = type
        self.proto = proto
        self._fd = self.net.new_fd(self)
        self._timeout = None
        self._closed = False
        self.rx = None
        self.tx = None
        self.conn = None
        self.role = None
        self.backlog = None
        self.addr = None
        self.shut_rd = False
        self.shut_wr = False
        self.owner = None

    # -------------------------------------------------------------- set-up
    def fileno(self):
        return -1 if self._closed else self._fd

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setsockopt(self, *a):
        pass

    def getsockname(self):
        return self.addr or ('127.0.0.1', 0)

    def getpeername(self):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        return ('127.0.0.1', 40000 + self.conn.id)

    def _check(self):
        if self._closed:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))

    def bind(self, addr):
        self.addr = addr

    def listen(self, n=5):
        self.role = 'listener'
        self.backlog = []
        self.net.listeners[self.addr[1]] = self

    def connect(self, addr):
        w = self.w
        self._check()
        w.yield_point('connect')
        pr = self.net.profile
        self.role = 'client'
        if pr.connect_latency[1]:
            w.sleep(pr.connect_latency[0] + (
                pr.connect_latency[1] - pr.connect_latency[0]) *
                w.ch.draw('net', 101) / 100.0)
        l = self.net.listeners.get(addr[1])
        refuse = pr.active(w) and w.fault('connect-refused', pr.p_refuse,
                                          'net')
        if l is None or l._closed or refuse:
            raise ConnectionRefusedError(
                errno.ECONNREFUSED, os.strerror(errno.ECONNREFUSED))
        c = Conn(self.net, len(self.net.conns) + 1)
        self.net.conns.append(c)
        c.client = self
        c.meta['addr'] = addr
        c.meta['opened'] = w.now
        c.meta['thread'] = w.current.name
        if pr.active(w):
            for p, kind in ((pr.p_reset, 'reset'),
                            (pr.p_blackhole, 'blackhole'),
                            (pr.p_fin, 'fin')):
                if p and w.ch.chance('net', p):
                    half = c.c2s if w.ch.draw('net', 2) else c.s2c
                    half.cut_at = (w.ch.draw('net', pr.cut_within), kind)
                    break
        self.conn = c
        self.tx, self.rx = c.c2s, c.s2c
        s = SimSocket(self.family, self.type, self.proto)
        s.role = 'server'
        s.conn = c
        s.tx, s.rx = c.s2c, c.c2s
        c.server = s
        s.addr = addr
        l.backlog.append(s)
        w.note('connect #%d to %s' % (c.id, addr))
        n = sum(1 for x in self.net.socks.values()
                if x.role == 'client' and x.conn is not None and
                not x._closed)
        self.net.peak = max(getattr(self.net, 'peak', 0), n)
        if self.net.on_connect is not None:
            self.net.on_connect(self)
        self.net.wake()

    def accept(self):
        self._check()
        self.w.yield_point('accept')
        while not self.backlog:
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, 'would block')
            if not self.net.wait('accept', self._timeout) and \
                    self._timeout is not None:
                raise socket.timeout('timed out')
            self._check()
        s = self.backlog.pop(0)
        return s, ('127.0.0.1', 40000 + s.conn.id)

    # -------------------------------------------------------------- state
    def readable(self):
        if self.backlog is not None:
            return bool(self.backlog)
        if self.rx is None:
            return False
        return bool(self.rx.avail or self.rx.fin or self.rx.reset or
                    self.shut_rd)

    def writable(self):
        if self.tx is None:
            return False
        return bool(self.tx.space() > 0 or self.rx.reset or self.shut_wr)

    # -------------------------------------------------------------- data
    def recv(self, n, flags=0):
        w = self.w
        self._check()
        w.yield_point('recv')
        if self.net.io_hook is not None:
            self.net.io_hook(self)
        if self.rx is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        while True:
            self._check()
            rx = self.rx
            if rx.avail:
                k = min(n, len(rx.avail))
                if self.net.profile.frag and k > 1:
                    f = w.ch.draw('net', k)
                    if f:
                        w.faults['short-recv'] = w.faults.get(
                            'short-recv', 0) + 1
                        k = f
                data = bytes(rx.avail[:k])
                del rx.avail[:k]
                rx.read += k
                self.net.wake()
                return data
            if self.shut_rd:
                return b''
            if rx.reset:
                raise ConnectionResetError(
                    errno.ECONNRESET, os.strerror(errno.ECONNRESET))
            if rx.fin:
                return b''
            if self._timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN,
                                      os.strerror(errno.EAGAIN))
            if not self.net.wait('recv', self._timeout) and \
                    self._timeout is not None:
                raise socket.timeout('timed out')

    def send(self, data, flags=0):
        w = self.w
        self._check()
        w.yield_point('send')
        if self.net.io_hook is not None:
            self.net.io_hook(self)
        if self.tx is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        pr = self.net.profile
        while True:
            self._check()
            if self.rx.reset or self.shut_wr:
                raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
            sp = self.tx.space()
            if sp and self._timeout == 0.0 and pr.p_eagain and \
                    w.fault('send-would-block', pr.p_eagain, 'net'):
                raise BlockingIOError(errno.EAGAIN, 'would block')
            if sp:
                k = min(sp, len(data))
                if k > 1 and pr.p_partial and w.ch.chance(
                        'net', pr.p_partial):
                    k = 1 + w.ch.draw('net', k)
                if k < len(data):
                    w.faults['partial-send'] = w.faults.get(
                        'partial-send', 0) + 1
                self.tx.push(bytes(data[:k]))
                return k
            if self._timeout == 0.0:
                w.faults['send-would-block'] = w.faults.get(
                    'send-would-block', 0) + 1
                raise BlockingIOError(errno.EAGAIN,
                                      os.strerror(errno.EAGAIN))
            if not self.net.wait('send', self._timeout) and \
                    self._timeout is not None:
                raise socket.timeout('timed out')

    def sendall(self, data, flags=0):
        data = memoryview(bytes(data))
        while len(data):
            n = self.send(data)
            data = data[n:]

    def shutdown(self, how):
        self._check()
        self.w.yield_point('shutdown')
        if self.conn is None:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        if self.rx.reset:
            raise OSError(errno.ENOTCONN, os.strerror(errno.ENOTCONN))
        if how in (socket.SHUT_WR, socket.SHUT_RDWR) and not self.shut_wr:
            self.shut_wr = True
            self.tx.push_fin()
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            self.shut_rd = True
        self.net.wake()

    def close(self):
        if self._closed:
            return
        self.w.yield_point('close')
        if self._closed:
            return
        self._closed = True
        if self.role == 'listener':
            for k, v in list(self.net.listeners.items()):
                if v is self:
                    del self.net.listeners[k]
            for s in self.backlog:
                s.close()
        elif self.conn is not None:
            self.conn.meta.setdefault('closed_by', self.role)
            self.conn.meta['closed_' + self.role] = self.w.now
            if self.rx.avail and not self.shut_rd:
                # unread data is answered with a reset
                self.tx.push_reset()
            else:
                self.tx.push_fin()
            self.rx.no_reader = True
            self.rx.avail = bytearray()
        self.net.wake()

    def detach(self):
        self._closed = True
        return self._fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass

    def makefile(self, mode='rb', bufsize=-1):
        raise io.UnsupportedOperation('makefile is not simulated')


def _tosock(net, x):
    if isinstance(x, int):
        s = net.socks.get(x)
    else:
        s = x if isinstance(x, SimSocket) else net.socks.get(x.fileno())
    if s is None or s._closed:
        if isinstance(x, int) and x >= 0:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        raise ValueError(
            "file descriptor cannot be a negative integer (-1)")
    return s


def sim_select(r, w_, x, timeout=None):
    w = core.WORLD
    if w is None or getattr(w, 'net', None) is None:
        return _real['select'](r, w_, x, timeout)
    net = w.net
    w.yield_point('select')
    rs = [(a, _tosock(net, a)) for a in r]
    ws = [(a, _tosock(net, a)) for a in w_]
    deadline = None if timeout is None else w.now + timeout
    if timeout is not None and timeout < 0:
        raise ValueError('timeout must be non-negative')
    while True:
        ro = [a for a, s in rs if s._closed or s.readable()]
        wo = [a for a, s in ws if s._closed or s.writable()]
        if ro or wo:
            return ro, wo, []
        if rs and net.profile.p_spurious and w.fault(
                'spurious-ready', net.profile.p_spurious, 'net'):
            return [a for a, s in rs], [], []
        left = None
        if deadline is not None:
            left = deadline - w.now
            if left <= 0:
                return [], [], []
        net.wait('select', left)


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    w = core.WORLD
    net = w.net
    w.yield_point('dns')
    pr = net.profile
    if pr.active(w) and w.fault('dns-failure', pr.p_dns, 'net'):
        raise socket.gaierror(socket.EAI_AGAIN,
                              'Temporary failure in name resolution')
    if net.hosts and host not in net.hosts:
        raise socket.gaierror(socket.EAI_NONAME,
                              'Name or service not known')
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, '',
             ('127.0.0.1', port))]


def install():
    _real['select'] = select.select
    select.select = sim_select
    socket.socket = SimSocket
    socket.getaddrinfo = sim_getaddrinfo
