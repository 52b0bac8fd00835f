"""C07: the HTTP client only repeats requests that are safe to repeat."""
from sim.runner import Check, Scenario
from . import httplib as h

ALL = ('GET', 'PUT', 'POST', 'POST', 'DELETE')


def _traffic(nets, servers, **kw):
    def go(w):
        w.randomize_sched(line_mean=(0, 0, 0, 200, 800))
        t = h.Traffic(w, nets, servers, ALL,
                      oracles=[h.safe_repeat, h.retried], **kw)
        n = w.between(1, 3)
        t.run(n, w.between(1, 6))
    return go


CHECK = Check(
    'C07',
    [Scenario('broken', _traffic(
        ('frag', 'cutting', 'dead', 'refuse', 'storm', 'bytes'),
        ('good', 'flaky', 'stalling', 'all')), quick=1100),
     Scenario('asked', _traffic(
         ('calm', 'frag', 'cutting', 'spurious'),
         ('asking', 'chatty', 'all')), quick=600)],
    rule='deliveries per request counted at the origin server: one for POST '
         'plus the repeats the server asked for, at most max_retries + 1 '
         'otherwise, and not fewer while the connection only breaks before '
         'a response; bodies byte for byte',
    real=['pyslet.http.client', 'pyslet.http.messages', 'pyslet.http.params',
          'pyslet.http.auth'],
    stub=['sockets, select and name look-up', 'origin server'],
    faults=['net-reset', 'net-fin', 'net-blackhole', 'connect-refused',
            'dns-failure', 'fragment', 'partial-send', 'send-would-block',
            'server-hangs-up', 'response-cut', 'server-resets',
            'server-stalls'],
    probes=['repeated', 'gave-up', 'challenge', 'redirect'])
