"""C08: the HTTP client pool stays within limits and always makes progress."""
import threading

from sim import core, net
from sim.core import Violation
from sim.runner import Check, Scenario
from . import httplib as h

ALL = ('GET', 'GET', 'HEAD', 'PUT', 'POST')
EPS = 0.5


def is_open(s):
    """A client socket that has been connected and not shut down.

    A connection that was reset is gone, and one that is killed while it
    is connecting cannot be shut down until its thread has the socket."""
    return (s.role == 'client' and s.conn is not None and
            not s._closed and not s.shut_wr and not s.rx.reset and
            not (s.owner is not None and s.owner.closed and
                 s.owner.socket is not s))


def within_limit(w, t):
    """The number of connections open at once, from connect to close."""
    def hook(sock):
        sock.owner = w.tags.get('connecting', {}).get(w.current)
        n = sum(1 for s in t.net.socks.values() if is_open(s))
        if n > t.maxconn:
            raise Violation('too-many-connections', '%d connections are open '
                            'at once, the maximum is %d' % (n, t.maxconn))
    t.net.on_connect = hook


def pool_time(t):
    """Waiting for a connection ends on time."""
    for wait, took, client in t.busy:
        if wait is None:
            raise Violation('busy', 'RequestManagerBusy without a time-out')
        if took < wait:
            raise Violation('busy-early', 'RequestManagerBusy after %.3f s, '
                            'before the time-out of %.3f s' % (took, wait))
        if took > wait + EPS:
            raise Violation('busy-late', 'RequestManagerBusy after %.3f s, '
                            'the time-out is %.3f s' % (took, wait))


def all_idle(t):
    """Nothing is left active once all threads are done."""
    n = t.client.active_count()
    if n:
        raise Violation('leaked', '%d connections are still active after '
                        'all requests ended' % n)


def closed_down(t):
    t.client.close()
    left = [s for s in t.net.open_sockets('client') if is_open(s)]
    if left:
        raise Violation('left-open', '%d sockets are open after close()' %
                        len(left))


def traffic(w):
    w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
    t = h.Traffic(w, ('calm', 'frag', 'slow', 'spurious', 'refuse',
                      'cutting', 'storm'),
                  ('good', 'asking', 'flaky', 'stalling', 'all'), ALL,
                  maxconn=(1, 1, 2, 3, 5), oracles=[],
                  finally_=None)
    within_limit(w, t)
    t.cfg['finally'] = [pool_time, all_idle, closed_down]
    t.run(w.between(1, 5), w.between(1, 4))


def gated(w, nw, limit):
    """A server that answers several requests at the same moment."""
    pending = []

    def serve(c):
        buf = b''
        try:
            while True:
                while b'\r\n\r\n' not in buf:
                    d = c.recv(4096)
                    if not d:
                        return
                    buf += d
                buf = buf.partition(b'\r\n\r\n')[2]
                pending.append(w.current)
                if len(pending) >= limit:
                    w.net.wake()
                else:
                    end = w.now + 0.2
                    while w.current in pending and len(pending) < limit \
                            and w.now < end:
                        w.net.wait('gate', end - w.now)
                c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n')
                if w.current in pending:
                    del pending[:]
                    w.net.wake()
        except OSError:
            pass

    def accept(port):
        s = h.socket.socket()
        s.bind(('', port))
        s.listen(50)
        while True:
            c, a = s.accept()
            w.spawn(lambda c=c: serve(c), 'srv%d' % c.conn.id, daemon=True)

    for host, port in h.HOSTS:
        w.spawn(lambda port=port: accept(port), 'accept%d' % port,
                daemon=True)


def pool(w):
    """Many threads want few connections; each is served in its turn."""
    w.randomize_sched(line_mean=(0, 0, 20, 100, 800))
    nw = net.Net(w, net.Profile(latency=w.pick(((0, 0), (0, 0.002)))))
    nw.hosts = set(x for x, p in h.HOSTS)
    n = w.between(2, 8)
    limit = w.between(1, 4)
    gated(w, nw, limit)
    client = h.SimClient(max_connections=limit, timeout=30)
    hosts = h.HOSTS[:w.between(1, 2)]

    def one(i):
        for k in range(w.between(1, 3)):
            host, port = w.pick(hosts)
            r = h.Req('q%d.%d' % (i, k), 'http://%s:%d/q%d.%d' % (
                host, port, i, k))
            wait = w.pick((None, None, 300.0))
            t0 = w.now
            try:
                client.queue_request(r, wait)
            except h.http.RequestManagerBusy:
                raise Violation('starved', 'a request waited %.1f s for one '
                                'of %d connections' % (w.now - t0, limit))
            if w.now > t0:
                w.probe('waited')
            client.thread_loop()
            if r.status // 100 != 2:
                raise Violation('failed', 'status %r error %r with no '
                                'fault' % (r.status, r.error))

    ts = [w.spawn(lambda i=i: one(i), 'c%d' % i) for i in range(n)]
    for x in ts:
        if not w.join(x, 1000):
            raise Violation('starved', 'a thread waits for a connection '
                            'for ever: ' + w.blocked_desc())
    if client.active_count():
        raise Violation('leaked', '%d connections are still active after '
                        'all requests ended' % client.active_count())
    client.close()
    w.tags['no_drain'] = True


# ---------------------------------------------------------------- time-outs
def silent(w):
    """A peer that goes silent is abandoned after the time-out."""
    w.randomize_sched(line_mean=(0, 0, 800))
    nw = net.Net(w, net.Profile(frag=w.draw(2),
                                window=w.pick((100, 1 << 20))))
    nw.hosts = {'h1'}
    timeout = w.pick((1.0, 4.0, 10.0))
    state = {}

    def server():
        s = h.socket.socket()
        s.bind(('', 80))
        s.listen(5)
        while True:
            c, a = s.accept()
            w.spawn(lambda c=c: handler(c), 'srv%d' % c.conn.id, daemon=True)

    kind = w.pick(('accept', 'head', 'body', 'trickle', 'unread', 'interim'))
    pieces = w.between(1, 6)
    gap = timeout * w.pick((0.1, 0.5, 0.9))

    def handler(c):
        last = w.now
        try:
            if kind == 'unread':
                w.sleep(1000)
            buf = bytearray()
            while b'\r\n\r\n' not in buf:
                d = c.recv(1000)
                if not d:
                    return
                buf += d
            if kind == 'interim':
                c.sendall(b'HTTP/1.1 100 Continue\r\n\r\n')
            if kind == 'head':
                c.sendall(b'HTTP/1.1 200 OK\r\nContent-')
            if kind in ('body', 'trickle'):
                c.sendall(b'HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n')
            if kind == 'trickle':
                for i in range(pieces):
                    w.sleep(gap)
                    c.sendall(b'x')
            state['last'] = w.now
            w.count_fault('peer-goes-silent')
            w.sleep(100000)
        except OSError:
            pass

    w.spawn(server, 'server', daemon=True)
    client = h.SimClient(timeout=timeout)
    w.tags.pop('connections', None)
    r = h.Req('q', 'http://h1/q', method='PUT', max_retries=0,
              entity_body=b'x' * w.pick((0, 10, 5000)))
    poll = w.pick((None, 0.05, 1.0, 60))
    t0 = w.now

    def go():
        client.queue_request(r)
        if poll is None:
            client.thread_loop()
        else:
            while client.thread_task(poll):
                w.sleep(0.001)

    th = w.spawn(go, 'client')
    if not w.join(th, 2000):
        raise Violation('not-abandoned', 'the client still waits for a '
                        'silent peer after 2000 s, time-out %.1f' % timeout)
    if r.status or r.error is None:
        raise Violation('no-error', 'status %r error %r from a silent peer' %
                        (r.status, r.error))
    last = state.get('last', t0)
    end = w.now
    if end - last > 2 * timeout + 2:
        raise Violation('late', 'a silent peer (%s) was abandoned after '
                        '%.1f s, the time-out is %.1f s' % (
                            kind, end - last, timeout))
    if kind != 'unread' and end - last < timeout - 0.05:
        raise Violation('early', 'the client gave up after %.2f s of '
                        'silence, the time-out is %.2f s' % (
                            end - last, timeout))
    for s in nw.open_sockets('client'):
        if is_open(s):
            raise Violation('left-open', 'the socket is still open')
    w.probe('abandoned')
    w.tags['no_drain'] = True


# ---------------------------------------------------------------- managing
def manage(w):
    """Clean-up and closing while other threads work, stall or die."""
    w.randomize_sched(line_mean=(0, 20, 60, 200, 800))
    t = h.Traffic(w, ('calm', 'frag', 'slow', 'refuse', 'cutting'),
                  ('good', 'asking', 'stalling', 'all'), ALL,
                  maxconn=(1, 2, 3), oracles=[], timeouts=(6.0, 20.0))
    within_limit(w, t)
    c = t.client
    plan = w.pick(('close', 'close', 'active', 'active', 'idle', 'mixed',
                   'abandon'))
    end = {}
    nthreads = w.between(1, 4)
    for r in range(1):
        pass

    def abandoner():
        """Queues a request, may start it, and never comes back."""
        r = t.request('a0', 0)
        try:
            c.queue_request(r, 5.0)
        except (h.http.RequestManagerBusy, h.http.ConnectionClosed):
            return
        for i in range(w.draw(4)):
            c.thread_task(0)
        w.count_fault('thread-abandons-connection')

    def manager():
        for i in range(w.between(1, 6)):
            w.sleep(w.pick((0.0001, 0.001, 0.01, 0.1, 1.0, 5.0)))
            k = w.draw(3) if plan == 'mixed' else \
                {'close': 2, 'active': 0, 'idle': 1, 'abandon': 0}[plan]
            m = w.pick((0, 0.01, 0.5, 3.0, 30.0))
            if k == 0:
                w.count_fault('active-cleanup')
                c.active_cleanup(m)
            elif k == 1:
                t0 = w.now
                c.idle_cleanup(m)
                w.probe('idle-cleanup')
            else:
                break
        if plan in ('close', 'mixed'):
            w.count_fault('client-close')
            c.close()
            end['closed'] = w.now
            check_closed()

    def check_closed():
        w.quiet += 1
        for s in t.net.open_sockets('client'):
            if is_open(s) and s.conn.meta['opened'] < end['closed']:
                raise Violation('left-open', 'connection %d is open after '
                                'Client.close() returned' % s.conn.id)
        w.quiet -= 1

    if plan == 'abandon':
        w.spawn(abandoner, 'abandoner')
    m = w.spawn(manager, 'manager')
    t.nthreads = nthreads + (1 if plan == 'abandon' else 0)
    nreq = w.between(1, 4)
    t.patient = True
    ts = [w.spawn(lambda n=n: t.worker('w%d' % n, nreq), 'w%d' % n)
          for n in range(nthreads)]
    if not w.join(m, 5000):
        raise Violation('stuck-manager', 'clean-up or close does not end: ' +
                        w.blocked_desc())
    if plan == 'abandon':
        # what the dead thread holds is released by the clean-up
        for i in range(100):
            w.sleep(20.0)
            c.active_cleanup(60.0)
            if all(x.state in (core.DONE, core.DEAD) for x in ts):
                break
    for x in ts:
        if not w.join(x, 20000):
            raise Violation('hang', 'requests still unfinished: ' +
                            w.blocked_desc())
    w.quiet += 1
    n = c.active_count()
    if plan == 'abandon':
        c.active_cleanup(0)
        n = c.active_count()
    if n:
        raise Violation('leaked', '%d connections are still active after '
                        'all requests ended' % n)
    pool_time(t)
    # the pool is as good as new
    if plan not in ('close', 'mixed'):
        t.net.clear_faults()
        t.net.profile.p_spurious = 0
        t.origin.quiet_after = 0
        again(w, t)
    else:
        end['closed'] = w.now
        check_closed()
        try:
            c.queue_request(t.request('z', 0))
        except h.http.ConnectionClosed:
            pass
        else:
            raise Violation('closed-client', 'a closed client accepted a '
                            'request')
    w.tags['no_drain'] = True


def again(w, t):
    """After all that the client still serves max_connections threads."""
    w.quiet -= 1
    rs = []

    def one(i):
        r = h.Req('again%d.0' % i, 'http://h1/again%d.0' % i, max_retries=3)
        rs.append(r)
        t.client.process_request(r, 30)

    def done(t0):
        return w.now - t0

    ts = [w.spawn(lambda i=i: one(i), 'again%d' % i)
          for i in range(t.maxconn)]
    t0 = w.now
    for x in ts:
        if not w.join(x, 500):
            raise Violation('hang', 'a request after the faults does not '
                            'end: ' + w.blocked_desc())
    w.quiet += 1
    for r in rs:
        if not 200 <= r.status <= 299:
            raise Violation('pool-broken', 'after the faults stopped a '
                            'request ends with status %r, error %r' % (
                                r.status, r.error))


def idle(w):
    """Idle connections are closed by the clean-up and not before."""
    w.randomize_sched(line_mean=(0, 60, 800))
    nw = net.Net(w, net.Profile())
    nw.hosts = set(x for x, p in h.HOSTS)
    o = h.Origin(w, nw, dict(ok=1), keep_alive=100000.0)
    o.start()
    auto = w.pick((None, 2.0, 10.0))
    client = h.SimClient(max_connections=10, timeout=30, max_inactive=auto)
    n = w.between(1, 3)

    def one(i):
        for k in range(w.between(1, 3)):
            host, port = w.pick(h.HOSTS)
            r = h.Req('q%d.%d' % (i, k), 'http://%s:%d/q%d.%d' % (
                host, port, i, k))
            client.process_request(r)
            if r.status // 100 != 2:
                raise Violation('failed', 'status %r error %r with no '
                                'fault' % (r.status, r.error))
            w.sleep(w.pick((0.1, 1.0, 15.0)))

    ts = [w.spawn(lambda i=i: one(i), 'c%d' % i) for i in range(n)]
    for x in ts:
        w.join(x)
    last = w.now
    if auto is None:
        m = w.pick((0.5, 5.0))
        w.sleep(m + 0.2)
        client.idle_cleanup(m)
        w.sleep(0.1)
    else:
        w.sleep(2 * auto + 1)
    left = [s for s in nw.open_sockets('client') if is_open(s)]
    if left:
        raise Violation('left-open', '%d idle connections are open after '
                        'the clean-up' % len(left))
    w.probe('idle-closed')
    client.close()
    w.tags['no_drain'] = True


CHECK = Check(
    'C08',
    [Scenario('traffic', traffic, quick=700),
     Scenario('pool', pool, quick=500),
     Scenario('silent', silent, quick=300),
     Scenario('manage', manage, quick=700),
     Scenario('idle', idle, quick=200)],
    rule='open sockets counted at every connect; every request ends within '
         'a bound of simulated time; RequestManagerBusy at its time-out; '
         'silent peers dropped between one and two time-outs; nothing left '
         'open or active afterwards, and the pool still works',
    real=['pyslet.http.client', 'pyslet.http.messages'],
    stub=['sockets, select and name look-up', 'origin server'],
    faults=['net-reset', 'net-fin', 'net-blackhole', 'net-stall',
            'connect-refused', 'dns-failure', 'peer-goes-silent',
            'active-cleanup', 'client-close', 'thread-abandons-connection',
            'server-stalls', 'server-hangs-up'],
    probes=['pool-busy', 'client-closed', 'abandoned', 'idle-cleanup',
            'idle-closed'])
