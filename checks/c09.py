"""C09: the HTTP server answers each request once, in order, with its body."""
from sim.core import Violation
from sim.runner import Check, Scenario
from sim import net
from . import serverlib as s

CALM = ('calm', 'frag', 'bytes', 'slow', 'spurious')
s.NETS['slow'] = dict(latency=(0.01, 0.3), frag=1, p_stall=0.02,
                      stall=(0.3, 1.0))


def settle(site, clients, limit=400.0):
    """Wait for the clients, then for the server to let go of them."""
    w = site.w
    for c in clients:
        if not w.join(c.thread, 150.0) and c.sock is not None:
            # stuck sending to a connection that is dead
            c.sock.close()
        if not w.join(c.thread, limit):
            raise Violation('client-stuck', '%s is still waiting after %d '
                            'seconds' % (c.name, limit))
    site.net.clear_faults()
    # idle 5, connection 10, application 10, whichever comes last
    end = w.now + 60.0
    while site.server.connections and w.now < end:
        w.sleep(0.5)
    if site.server.connections:
        raise Violation('slot-leak', '%d connections are still registered '
                        '60 seconds after their clients have gone' %
                        len(site.server.connections))
    left = [x for x in site.net.open_sockets('server')]
    while left and w.now < end:
        w.sleep(0.5)
        left = [x for x in site.net.open_sockets('server')]
    if left:
        raise Violation('socket-leak', '%d server sockets stay open' %
                        len(left))
    if site.server.errors:
        raise Violation('server-error', 'handling a connection failed: %r' %
                        site.server.errors[0])
    w.sleep(1)
    w.tags['no_drain'] = True


def size_cfg(site):
    big = {'bytes': 300, 'slow': 5000}.get(site.kind, 30000)
    return dict(big=big)


def benign(w):
    """Well-behaved clients and application."""
    w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
    site = s.Site(w, CALM)
    run(site, benign=True, n=(1, 3), per=(1, 6))


def failing(w):
    """The application fails in one of several ways."""
    w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
    site = s.Site(w, CALM, dict(p_fail=0.3, failures=(
        'before', 'started', 'mid', 'no_start', 'stall')))
    run(site, benign=True, n=(1, 2), per=(1, 4))


def run(site, benign, n, per, cut=0.0, bad=0.0, **kw):
    w = site.w
    cfg = dict(size_cfg(site), **kw)
    cs = []
    for i in range(w.between(*n)):
        reqs = []
        for k in range(w.between(*per)):
            r = site.request(i, k, cfg)
            reqs.append(r)
            if bad and w.chance(bad):
                s.spoil(w, r)
                break
            if r.close or r.version == b'1.0':
                if w.chance(0.7):
                    break
        c = site.client(reqs, cfg, at=w.pick((0, 0, 0.3, 2.0)))
        if cut and w.chance(cut):
            total = sum(len(r.wire) for r in reqs)
            c.cut = (w.pick(('fin', 'reset', 'close', 'stall')),
                     w.draw(total))
        cs.append(c)
    for c in cs:
        c.start()
    settle(site, cs)
    for c in cs:
        s.check_client(site, c, benign and c.cut is None and not any(
            r.bad for r in c.reqs))


def cutting(w):
    """Clients that vanish or fall silent in the middle of a request."""
    w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
    site = s.Site(w, CALM)
    run(site, True, (1, 3), (1, 4), cut=0.7)


def weather(w):
    """Connections that break by themselves."""
    w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
    site = s.Site(w, ('cutting', 'dead', 'storm'), dict(p_fail=0.1))
    run(site, False, (1, 3), (1, 4))


def malformed(w):
    """Requests that are not HTTP."""
    w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
    site = s.Site(w, CALM)
    run(site, True, (1, 3), (1, 4), bad=0.5)


CHECK = Check(
    'C09',
    [Scenario('benign', benign, quick=500),
     Scenario('failing', failing, quick=300),
     Scenario('cutting', cutting, quick=300),
     Scenario('weather', weather, quick=200),
     Scenario('malformed', malformed, quick=300)],
    rule='the bytes each client receives parse as the responses of the '
         'application to its requests, in order; the application is called '
         'once per request with what was sent; no truncated body or failed '
         'response looks complete',
    real=['pyslet.http.server', 'pyslet.http.messages', 'pyslet.http.params',
          'pyslet.http.grammar', 'pyslet.streams', 'socketserver'],
    stub=['sockets and select', 'HTTP clients', 'WSGI application'],
    faults=['fragment', 'partial-send', 'send-would-block', 'spurious-ready',
            'net-stall', 'net-reset', 'net-fin', 'net-blackhole',
            'client-fin', 'client-reset', 'client-close', 'client-stall',
            'app-stalls'],
    probes=['answered', 'sent-100'])
