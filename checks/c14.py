"""C14: the in-memory data service is linearizable."""
from sim.core import Violation
from sim.runner import Check, Scenario
from . import edmlib, model


class Site(object):

    def __init__(self, w, groups=None):
        self.w = w
        self.store = edmlib.Mem(w, model.metadata(), model.NAME)
        self.h = model.History(w)
        self.gen = model.Generator(w, groups)
        self.state = model.State()

    def client(self):
        return model.Client(self.h, self.store.c)

    def prepare(self, n):
        """Some entities to begin with, one operation at a time."""
        c = self.client()
        for i in range(n):
            c.do(*self.gen.op())
        self.settle()

    def dump(self):
        self.client().do('dump', *model.ALL)

    def settle(self):
        self.dump()
        s = model.check(self.w, self.h.ops, self.state)
        if s is None:
            # too many orders: go on from what is there
            s = model.State()
            for (name, key), row in self.h.ops[-1].res.items():
                s.ents[name, key] = row[0]
                for nav, keys in zip(model.navs(name), row[1:]):
                    for k in keys:
                        s.put(name, key, nav, k)
                if name == 'Files':
                    s.streams[key] = row[-1]
        self.state = s
        del self.h.ops[:]

    def run(self, nthreads, nops, fail=0.0):
        w = self.w

        def go():
            c = self.client()
            for i in range(nops):
                op = self.gen.op()
                if fail and op[0] in ('new-stream', 'put-stream') and \
                        w.chance(fail):
                    self.broken(c, op)
                    continue
                c.do(*op)
                if w.chance(0.1):
                    w.yield_point('client')
        ts = [w.spawn(go, 'T%d' % i) for i in range(nthreads)]
        for t in ts:
            w.join(t)

    def broken(self, c, op):
        """The source of a stream fails: nothing must change."""
        o = c.do(*(op + (self.w.between(0, len(op[2])),)))
        if o.res != 'fail':
            raise Violation('ignored', '%r succeeded although its source '
                            'failed' % o)
        self.h.ops.remove(o)


def sequential(w):
    """One client: every result is as in the model."""
    site = Site(w)

    def go():
        for i in range(w.between(1, 4)):
            site.prepare(w.between(1, 12))
    w.join(w.spawn(go, 'T0'))


def concurrent(w):
    """A few clients at a time."""
    w.randomize_sched(line_mean=(10, 30, 100))
    site = Site(w)
    site.prepare(w.between(0, 8))
    for i in range(w.between(1, 2)):
        site.run(w.between(2, 3), w.between(1, 4))
        site.settle()


def dense(w):
    """Two operations on the same entities at the same time."""
    w.randomize_sched(line_mean=(4, 8, 15, 40))
    site = Site(w)
    site.gen.keys = (1, 2)
    site.prepare(w.between(0, 6))
    for i in range(3):
        site.run(w.between(2, 3), w.between(1, 2))
        site.settle()


def streams(w):
    """Media streams, some from sources that fail."""
    w.randomize_sched(line_mean=(10, 30, 100))
    site = Site(w, ('Files',))
    site.prepare(w.between(0, 5))
    for i in range(w.between(1, 2)):
        site.run(w.between(2, 3), w.between(1, 4), w.pick((0.0, 0.2)))
        site.settle()


def tickets(w):
    """Automatic keys in a small space."""
    w.randomize_sched(line_mean=(10, 30, 100))
    site = Site(w, ('Tickets',))
    c = site.client()
    n = w.pick((10, 200, 230))
    vals = {'name': 'x'}
    for i in range(n):
        c.do('insert', model.New('Tickets', '%02X' % (i + 20), vals))
    site.settle()
    site.run(w.between(2, 4), w.between(1, 3))
    site.settle()


CHECK = Check(
    'C14',
    [Scenario('sequential', sequential, quick=500),
     Scenario('concurrent', concurrent, quick=700),
     Scenario('dense', dense, quick=700),
     Scenario('streams', streams, quick=250),
     Scenario('tickets', tickets, quick=80)],
    rule='there is an order of the operations, consistent with real time, '
         'in which a reference model gives the same results and the same '
         'final entities, links and streams',
    real=['pyslet.odata2.memds', 'pyslet.odata2.csdl collections',
          'pyslet.odata2.core'],
    stub=['nothing: threads are scheduled by the simulator'],
    faults=['source-fails'],
    line_files=['pyslet/odata2/memds.py', 'pyslet/odata2/csdl.py',
                'pyslet/odata2/core.py'],
    probes=[])
