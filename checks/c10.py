"""C10: the HTTP server bounds its connections and releases them."""
from sim import core
from sim.core import Violation
from sim.runner import Check, Scenario
from . import serverlib as s
from .c09 import CALM, size_cfg

s.NETS['together'] = dict(latency=(0.0, 0.0), connect_latency=(0.0, 0.0))
SLACK = 3.0       # delays of the application and the network


def threads_left(w, site):
    """Threads the server started that have not ended."""
    return [t for t in w.threads if t.name.startswith('Thread-') and
            t.state not in (core.DONE, core.DEAD)]


class Watch(object):

    """Intervals of connections, seen from outside."""

    def __init__(self, site, limit):
        self.site = site
        self.limit = limit

    def refused(self, c):
        return bytes(c.buf).startswith(b'HTTP/1.1 503')

    def span(self, c):
        end = c.conn.meta.get('closed_server')
        return (c.conn.meta['opened'],
                end if end is not None else self.site.w.now)

    def check(self):
        site = self.site
        w = site.w
        cs = [c for c in site.clients if c.connected is not None]
        served = []
        for c in cs:
            if self.refused(c):
                continue
            calls = [x for r in c.reqs for x in s.calls_of(site, r.tok)]
            if calls:
                # from the first call to the end of the last
                end = min(calls[-1].finished or calls[-1].at,
                          self.span(c)[1])
                if c.arrivals:
                    end = min(end, c.arrivals[-1][0])
                served.append((calls[0].at, end, c))
        # never more than the limit at once
        for a, b, c in served:
            n = sum(1 for x, y, d in served if x <= a < y or d is c)
            if n > self.limit:
                raise Violation('too-many', '%d connections are served at '
                                'once, the limit is %d' % (n, self.limit))
        # a refusal needs a server that is full
        for c in cs:
            if not self.refused(c):
                continue
            w.probe('refused')
            a, b = self.span(c)
            others = 0
            for d in cs:
                if d is c or self.refused(d):
                    continue
                x, y = self.span(d)
                if x <= b and y >= a:
                    others += 1
            if others < self.limit:
                raise Violation('refused-early', '%s was refused while %d '
                                'of %d connections were in use' % (
                                    c.name, others, self.limit))
            for r in c.reqs:
                if s.calls_of(site, r.tok):
                    raise Violation('refused-served', '%s was refused and '
                                    'its request %s reached the '
                                    'application' % (c.name, r.tok))
            if not c.ended_at:
                raise Violation('refused-open', '%s was refused and its '
                                'connection stays open' % c.name)


def release(site, limit, bound):
    """Everything has gone quiet: all slots and threads come back."""
    w = site.w
    end = w.now + bound
    while w.now < end and (
            site.server.connections or
            site.net.open_sockets('server') or threads_left(w, site)):
        w.sleep(0.25)
    if site.server.connections:
        raise Violation('slot-leak', '%d connections are still registered '
                        'after %d seconds' % (
                            len(site.server.connections), bound))
    if site.net.open_sockets('server'):
        raise Violation('socket-leak', '%d server sockets stay open' %
                        len(site.net.open_sockets('server')))
    left = threads_left(w, site)
    if left:
        raise Violation('thread-leak', '%s never ended (%s)' % (
            left[0].name, left[0].wait_on))
    if site.server.errors:
        raise Violation('server-error', 'handling a connection failed: %r' %
                        site.server.errors[0])
    # and as many connections as configured can be used again
    n = min(limit, 3)
    cs = []
    cfg = dict(p_10=0, p_close=0, p_expect=0, big=100, pauses=(0,),
               hold=(1.0,), p_pipeline=0)
    base = len(site.clients)
    for i in range(n):
        r = site.request(base + i, 0, cfg)
        p = site.app.plans[r.tok]
        p.fail = None
        p.delays = (0, 0)
        c = site.client([r], cfg)
        c.hold = 1.0
        cs.append(c)
    t0 = w.now
    for c in cs:
        c.start()
    for c in cs:
        w.join(c.thread, 60)
    for c in cs:
        ms = c.responses()
        if not ms or not ms[0].complete:
            raise Violation('not-accepting', 'no response to a new '
                            'connection after the others ended')
        if ms[0].status == 503:
            raise Violation('not-accepting', 'a new connection is refused '
                            'although none of %d is in use' % limit)
    w.tags['no_drain'] = True


def prepare(w, nets, limit, app_cfg=None, quiet=True):
    return s.Site(w, nets, app_cfg, max_connections=limit)


def limit(w):
    """More clients than connections."""
    w.randomize_sched(line_mean=(0, 0, 60, 800))
    m = w.between(1, 3)
    site = prepare(w, CALM, m)
    site.app.cfg['big'] = 300
    watch = Watch(site, m)
    cfg = dict(size_cfg(site), big=300, p_expect=0.05)
    for i in range(m + w.between(1, 4)):
        reqs = [site.request(i, k, cfg) for k in range(w.between(1, 3))]
        c = site.client(reqs, cfg, at=w.pick((0, 0, 0.002, 0.01, 0.3, 2.0,
                                              4.0)))
        c.hold = w.pick((0, 0, 1.0, 3.0))
        c.give_up = 30.0
    for c in site.clients:
        c.start()
    for c in site.clients:
        if not w.join(c.thread, 100):
            raise Violation('client-stuck', '%s waits for ever' % c.name)
    w.sleep(1.0)
    watch.check()
    for c in site.clients:
        if not watch.refused(c):
            s.check_client(site, c, True)
    release(site, m, 45.0)


def rush(w):
    """Clients that all connect at once, to a slow application."""
    w.randomize_sched(p_switch=(0.1, 0.3, 0.6), line_mean=(0, 4, 12, 40))
    m = w.between(1, 3)
    site = prepare(w, ('together', 'together', 'calm'), m)
    watch = Watch(site, m)
    cfg = dict(p_10=0.2, p_expect=0, big=100, pauses=(0,), p_pipeline=0)
    t = w.pick((0.0, 0.0, 0.0001))
    for i in range(m + w.between(1, 3)):
        r = site.request(i, 0, cfg)
        p = site.app.plans[r.tok]
        p.delays = (w.pick((0.5, 1.0)), 0)
        c = site.client([r], cfg, at=t * w.draw(4))
        c.give_up = 30.0
    for c in site.clients:
        c.start()
    for c in site.clients:
        if not w.join(c.thread, 100):
            raise Violation('client-stuck', '%s waits for ever' % c.name)
    w.sleep(1.0)
    watch.check()
    release(site, m, 45.0)


KINDS = ('connect', 'head', 'body', 'between', 'response', 'vanish',
         'reset', 'app')


def staller(site, i, w):
    """A client that stops at a drawn point; returns it."""
    kind = w.pick(KINDS)
    cfg = dict(p_10=0, p_close=0, p_expect=0.1, big=3000)
    reqs = [site.request(i, k, cfg) for k in range(w.between(1, 2))]
    r = reqs[-1]
    c = site.client(reqs, cfg, at=w.pick((0, 0, 0.5)))
    c.kind = kind
    c.give_up = 70.0
    before = sum(len(x.wire) for x in reqs[:-1])
    if kind == 'connect':
        c.cut = ('stall', 0)
    elif kind == 'head':
        c.cut = ('stall', before + 1 + w.draw(len(r.head) - 2))
    elif kind == 'body':
        c.cut = ('stall', before + len(r.head) + w.draw(
            max(1, len(r.wire_body) - 1)))
        if not r.wire_body:
            c.cut = ('stall', before + len(r.head) - 1)
    elif kind == 'between':
        c.cut = ('stall', before)
    elif kind in ('vanish', 'reset'):
        c.cut = ({'vanish': 'blackhole', 'reset': 'reset'}[kind],
                 w.draw(before + len(r.wire)))
    elif kind == 'response':
        # never reads what comes back, which fills the window
        c.deaf = True
    elif kind == 'app':
        site.app.plans[r.tok].fail = 'stall'
        site.app.plans[r.tok].stall = w.pick((15.0, 60.0))
    return c


def stalled(w):
    """Stalled and vanished clients among well-behaved ones."""
    w.randomize_sched(line_mean=(0, 0, 60, 800))
    ns = w.between(1, 4)
    ng = w.between(1, 3)
    m = w.pick((None, ns + ng))
    site = prepare(w, ('calm', 'frag'), m)
    site.net.profile.window = w.pick((300, 2000, 1 << 20))
    bad = [staller(site, i, w) for i in range(ns)]
    good = []
    for j in range(ng):
        cfg = dict(p_10=0.1, p_close=0, p_expect=0.1, big=1000,
                   pauses=(0,), think=(0, 1.0, 3.0))
        reqs = [site.request(ns + j, k, cfg)
                for k in range(w.between(2, 6))]
        for r in reqs:
            site.app.plans[r.tok].delays = (0, 0)
        for k, r in enumerate(reqs):
            if r.version == b'1.0' or r.expect:
                del reqs[k + 1:]
                break
        c = site.client(reqs, cfg, at=w.pick((0, 0.5, 3.0)))
        c.pipeline = False
        good.append(c)
    for c in bad + good:
        c.start()
    for c in good:
        if not w.join(c.thread, 100):
            raise Violation('client-stuck', '%s waits for ever' % c.name)
        # served in bounded time, whatever the others do
        for k, r in enumerate(c.reqs):
            if r.started is None or r.sent_all is None:
                continue
            at = c.answered_at(k)
            if at is None:
                continue
            if at - r.sent_all > 2.0:
                raise Violation('slow-service', '%s was answered after '
                                '%.1f seconds' % (r.tok, at - r.sent_all))
            w.probe('served-meanwhile')
    # a stalled client is dropped: 5 seconds idle, 10 for the connection,
    # 10 for the application, whichever sum applies to where it stopped
    limit_ = 5.0 + 10.0 + 10.0 + SLACK
    for c in bad:
        if not w.join(c.thread, 200):
            raise Violation('client-stuck', '%s waits for ever' % c.name)
    for c in bad:
        if c.conn is None:
            continue
        a = c.quiet_since()
        while 'closed_server' not in c.conn.meta and w.now < a + limit_:
            w.sleep(0.25)
        b = c.conn.meta.get('closed_server')
        if b is None:
            raise Violation('not-dropped', '%s (%s) is still connected' % (
                c.name, c.kind))
        if a is not None and b - a > limit_:
            raise Violation('not-dropped', '%s (%s) was dropped %.1f '
                            'seconds after it fell silent' % (
                                c.name, c.kind, b - a))
        w.probe('dropped-' + c.kind)
    for c in good:
        s.check_client(site, c, True)
    release(site, m or 3, 75.0)


CHECK = Check(
    'C10',
    [Scenario('limit', limit, quick=350),
     Scenario('rush', rush, quick=900),
     Scenario('stalled', stalled, quick=350)],
    rule='connections served at once never exceed the limit, 503 only when '
         'the limit is reached; a silent client is dropped within the sum of '
         'the time-outs that apply; afterwards no slot, socket or thread is '
         'left and the full number of connections is accepted again',
    real=['pyslet.http.server', 'pyslet.http.messages', 'pyslet.streams',
          'socketserver'],
    stub=['sockets and select', 'HTTP clients', 'WSGI application'],
    faults=['fragment', 'client-stall', 'client-blackhole', 'client-reset',
            'client-deaf', 'app-stalls', 'spurious-ready', 'net-stall',
            'partial-send', 'send-would-block'],
    probes=['refused', 'served-meanwhile', 'dropped-connect',
            'dropped-head', 'dropped-body', 'dropped-between',
            'dropped-response', 'dropped-vanish', 'dropped-app'])
