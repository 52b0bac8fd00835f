"""C15: changes of the SQL data service are atomic, durable and right."""
import sqlite3

from sim.core import Violation
from sim.runner import Check, Scenario
from . import edmlib, model

from pyslet.blockstore import BlockMissing, LockError
from pyslet.odata2 import csdl
from pyslet.odata2.sqlds import SQLError


def symmetric(o):
    """Replaces or removes a link of a 0..1 to 0..1 association."""
    if o.kind in ('replace', 'unlink'):
        navs = [o.args[2]]
    elif o.kind == 'update':
        navs = [nav for nav, b in o.args[4]]
    else:
        return False
    return any(model.mult(o.args[0], nav) == ('0..1', '0..1')
               for nav in navs)


class Client(model.Client):

    """A client that may meet faults."""

    site = None

    def do(self, *op):
        site = self.site
        me = self.w.current.name
        unknown = site.db.unknown.get(me, 0)
        self.before = site.errors()
        o = super(Client, self).do(*op)
        if o.res == 'fail' and site.errors() > self.before:
            site.failed.append(o)
            self.w.probe('failed')
            if site.db.unknown.get(me, 0) > unknown:
                site.doubt.append(o)
        return o

    def failed(self, o, e):
        if self.site.parallel and o.kind == 'get-stream' and \
                isinstance(e, (KeyError, SQLError, BlockMissing)):
            # replaced while it was read
            self.site.busy.append(o)
            return
        if self.site.parallel and isinstance(e, LockError):
            # somebody had a lock on the block, or died with it
            self.site.busy.append(o)
            return
        if isinstance(e, (KeyError, csdl.EDMError, SQLError)):
            # (a lock may not be obtained in time)
            if isinstance(e, SQLError) and 'locked' in str(e):
                self.site.busy.append(o)
                return
            if isinstance(e, csdl.NavigationError) and symmetric(o):
                # not supported by the SQL service
                self.site.busy.append(o)
                return
            if not isinstance(e, SQLError):
                return
            if self.site.parallel and o.kind == 'delete' and \
                    'FOREIGN KEY' in str(e):
                # refused because of what another client did meanwhile
                self.site.busy.append(o)
                return
        if self.site.errors() > self.before and \
                isinstance(e, (SQLError, sqlite3.Error)):
            return
        raise Violation('error', '%r raised %s: %s' % (
            o, type(e).__name__, e))

    before = 0


class Site(object):

    def __init__(self, w, groups=None, nproc=1, streams=0, **kw):
        self.w = w
        self.kw = kw
        self.store = edmlib.Sql(w, model.metadata(), model.NAME, streams)
        if streams:
            self.names += ('Files',)
        self.db = self.store.db
        self.h = model.History(w)
        self.gen = model.Generator(w, groups, False)
        self.procs = {}
        self.failed = []        # operations that met a fault and raised
        self.busy = []          # operations that did not get a lock
        self.crashed = []
        self.doubt = []         # and may have done what they should
        self.state = model.State()
        for i in range(nproc):
            self.process('P%d' % i)

    parallel = False            # clients run at the same time

    def process(self, name):
        self.w.quiet += 1
        try:
            self.procs[name] = self.store.open(**self.kw)
        finally:
            self.w.quiet -= 1

    def errors(self):
        return self.db.errors.get(self.w.current.name, 0)

    def client(self, proc):
        c = Client(self.h, self.procs[proc])
        c.site = self
        return c

    names = tuple(model.SETS) + ('Tickets',)

    def dump(self, proc):
        """What the service has now."""
        p = {k: v for k, v in vars(self.db).items() if k.startswith('p_')}
        self.db.calm()
        c = self.client(proc)
        o = c.do('dump', *self.names)
        if o.res == 'fail':
            raise Violation('unreadable', '%r without faults' % o)
        vars(self.db).update(p)
        return o

    def settle(self, proc):
        """Everything done so far is explained by the model."""
        o = self.dump(proc)
        # what raised because of a fault changed nothing; only a commit may
        # have failed after all was done
        for x in self.h.ops:
            if x.end is None:
                self.crashed.append(x)
        maybe = self.doubt + self.crashed
        for x in maybe:
            x.res = self.guess(x)
        ops = [x for x in self.h.ops
               if x in maybe or x not in self.failed and x not in self.busy]
        ops = [x for x in ops if x not in maybe or
               x.kind != 'scan' and x.kind not in model.READERS]
        s = model.check(self.w, ops, self.state, maybe)
        # (which of those in doubt were done can be seen only here)
        self.state = load(o.res) if s is None else s
        self.h.ops = []
        self.failed = []
        self.busy = []
        self.crashed = []
        self.doubt = []

    def guess(self, x):
        """The result of an operation whose caller never learned it."""
        new = None
        if x.kind == 'insert':
            new = x.args[0]
        elif x.kind == 'nav-insert':
            new = x.args[3]
        elif x.kind == 'new-stream':
            return ('key', x.args[0])
        if new is None:
            return 'ok'
        return ('key', new.key)

    def prepare(self, n):
        """Some entities to begin with."""
        def go():
            c = self.client('P0')
            for i in range(n):
                c.do(*self.gen.op())
            self.settle('P0')
        self.w.join(self.w.spawn(go, 'prepare', group='P0'))
        self.parallel = True

    def run(self, proc, nops, name):
        def go():
            c = self.client(proc)
            for i in range(nops):
                c.do(*self.gen.op())
                if self.w.chance(0.1):
                    self.w.yield_point('client')
        return self.w.spawn(go, name, group=proc)


def load(rows):
    s = model.State()
    for (name, key), row in rows.items():
        s.ents[name, key] = row[0]
        for nav, keys in zip(model.navs(name), row[1:]):
            for k in keys:
                s.put(name, key, nav, k)
        if name == 'Files':
            s.streams[key] = row[-1]
    return s


def sequential(w):
    """One client, every result as in the model."""
    site = Site(w)
    for i in range(w.between(1, 4)):
        site.prepare(w.between(1, 6))


def concurrent(w):
    """A few threads of one process."""
    w.randomize_sched(line_mean=(0, 0, 200))
    site = Site(w, max_connections=w.pick((1, 2, 5, 10)))
    site.prepare(w.between(0, 6))
    for i in range(w.between(1, 2)):
        ts = [site.run('P0', w.between(1, 3), 'T%d' % j)
              for j in range(w.between(2, 3))]
        for t in ts:
            w.join(t)
        finish(w, site)


def processes(w):
    """A few processes that share the file."""
    w.randomize_sched(line_mean=(0, 0, 200))
    n = w.between(2, 3)
    site = Site(w, nproc=n)
    site.prepare(w.between(0, 6))
    for i in range(w.between(1, 2)):
        ts = [site.run('P%d' % j, w.between(1, 3), 'T%d' % j)
              for j in range(n)]
        for t in ts:
            w.join(t)
        finish(w, site)


def finish(w, site, fresh=0.3):
    """What a running or a new process sees is what was done."""
    proc = 'P0'
    if w.chance(fresh):
        proc = 'N%d' % len(site.procs)
        site.process(proc)
    w.join(w.spawn(lambda: site.settle(proc), 'check', group=proc))


def faults(w):
    """Queries, changes and commits fail."""
    w.randomize_sched(line_mean=(0, 0, 0, 200))
    site = Site(w)
    site.gen.auto = 0
    if site.gen.names == ('Tickets',):
        site.gen.names = tuple(model.SETS)
    site.prepare(w.between(1, 6))
    db = site.db
    for i in range(w.between(1, 3)):
        db.p_read = w.pick((0.0, 0.0, 0.05))
        db.p_write = w.pick((0.0, 0.1, 0.3))
        db.p_busy = w.pick((0.0, 0.1))
        db.p_full = w.pick((0.0, 0.1))
        db.p_commit = w.pick((0.0, 0.2))
        db.p_commit_busy = w.pick((0.0, 0.2))
        db.p_unknown = w.pick((0.0, 0.0, 0.1))
        n = w.pick((1, 1, 1, 2))
        ts = [site.run('P0', w.between(1, 8 // n), 'T%d' % j)
              for j in range(n)]
        for t in ts:
            w.join(t)
        db.calm()
        finish(w, site)


def crash(w):
    """A process dies, another one goes on."""
    w.randomize_sched(line_mean=(0, 0, 0, 200))
    np = w.between(1, 2)
    site = Site(w, nproc=np)
    site.gen.auto = 0
    if site.gen.names == ('Tickets',):
        site.gen.names = tuple(model.SETS)
    site.prepare(w.between(1, 6))
    db = site.db
    threads = []

    def gone(group):
        for t in threads:
            if t.group == group and t is not w.current:
                w.kill_thread(t)
    db.on_crash = gone
    for i in range(w.between(1, 2)):
        alive = sorted(site.procs)
        threads[:] = [site.run(p, w.between(1, 4), '%s.%d' % (p, j))
                      for p in alive
                      for j in range(w.pick((1, 1, 2) if np == 1 else (1,)))]
        db.crash_at = db.count + 1 + w.draw(w.pick((20, 60, 120)))
        for t in list(threads):
            w.join(t)
        db.crash_at = None
        finish(w, site, 1.0)
        # the ones that died do not come back
        dead = set(t.group for t in threads if t.group in site.procs and
                   not any(not c.closed for c in db.conns
                           if c.group == t.group))
        for p in dead:
            del site.procs[p]
        if len(site.procs) > 2:
            del site.procs[sorted(site.procs)[0]]


def streams(w):
    """Media streams, kept in a stream store."""
    w.randomize_sched(line_mean=(0, 0, 100))
    site = Site(w, ('Files',), w.between(1, 2), w.pick((4, 16)))
    site.gen.auto = 0
    site.gen.keys = w.pick(((1,), (1, 2, 3)))
    site.prepare(w.between(0, 5))
    db = site.db
    threads = []

    def gone(group):
        for t in threads:
            if t.group == group and t is not w.current:
                w.kill_thread(t)
    db.on_crash = gone
    how = w.pick(('calm', 'calm', 'faults', 'crash'))
    if how == 'faults':
        db.p_read = w.pick((0.0, 0.02))
        db.p_write = w.pick((0.0, 0.05))
        db.p_busy = w.pick((0.0, 0.05))
        db.p_commit = w.pick((0.0, 0.05))
        db.p_unknown = w.pick((0.0, 0.0, 0.05))
    threads[:] = [site.run(p, w.between(1, 3), '%s.%d' % (p, j))
                  for p in sorted(site.procs)
                  for j in range(w.between(1, 2))]
    if how == 'crash':
        db.crash_at = db.count + 1 + w.draw(w.pick((100, 300)))
    for t in list(threads):
        w.join(t)
    db.crash_at = None
    db.calm()
    finish(w, site, 1.0 if how == 'crash' else 0.3)


CHECK = Check(
    'C15',
    [Scenario('sequential', sequential, quick=250),
     Scenario('concurrent', concurrent, quick=250),
     Scenario('processes', processes, quick=250),
     Scenario('faults', faults, quick=300),
     Scenario('crash', crash, quick=300),
     Scenario('streams', streams, quick=200)],
    rule='every result and the stored data are those of a reference model; '
         'an operation that raised did nothing',
    real=['pyslet.odata2.sqlds on the sqlite3 library and a real file',
          'pyslet.odata2.csdl', 'pyslet.odata2.core'],
    stub=['sqlite3.connect passes through a seam; processes are groups of '
          'threads with their own containers'],
    faults=['process-crash', 'sql-read-error', 'sql-write-error',
            'sql-write-busy', 'sql-disk-full', 'commit-error',
            'commit-busy', 'commit-unknown'],
    line_files=['pyslet/odata2/sqlds.py'],
    probes=['failed', 'sql-busy'])
