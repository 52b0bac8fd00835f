"""C06: every HTTP client request gets its own response or fails visibly."""
from sim.runner import Check, Scenario
from . import httplib as h

ALL = ('GET', 'GET', 'GET', 'HEAD', 'PUT', 'POST', 'DELETE')


def _traffic(nets, servers, **kw):
    def go(w):
        w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
        t = h.Traffic(w, nets, servers, ALL, oracles=[h.own_response], **kw)
        n = w.between(1, 4)
        t.run(n, w.between(1, 6))
    return go


CHECK = Check(
    'C06',
    [Scenario('weather', _traffic(
        ('calm', 'frag', 'bytes', 'slow', 'spurious'),
        ('good', 'chatty', 'asking', 'all')), quick=900),
     Scenario('broken', _traffic(
         ('frag', 'cutting', 'dead', 'refuse', 'storm'),
         ('good', 'flaky', 'stalling', 'all')), quick=900)],
    rule='status, headers and body of a finished request are those of one '
         'response the origin server made for it; otherwise an error',
    real=['pyslet.http.client', 'pyslet.http.messages', 'pyslet.http.params',
          'pyslet.http.auth'],
    stub=['sockets, select and name look-up', 'origin server'],
    faults=['net-reset', 'net-fin', 'net-blackhole', 'net-stall',
            'connect-refused', 'dns-failure', 'fragment', 'short-recv',
            'partial-send', 'send-would-block', 'spurious-ready',
            'server-hangs-up', 'response-cut', 'server-resets',
            'server-stalls', 'surplus-bytes'],
    probes=['succeeded', 'failed', 'interim', 'early-response', 'sent-100',
            'challenge', 'redirect'])
