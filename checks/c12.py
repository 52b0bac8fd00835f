"""C12: a named lock has one holder at a time."""
import sqlite3

from sim.core import Violation
from sim.runner import Check, Scenario
from . import edmlib, storelib as s

from pyslet.odata2.sqlds import SQLError

LockError = s.blockstore.LockError

# a created time is rounded down to a second or up by one; an attempt of a
# lock that is granted takes no longer than this from writing the time
ROUND = 2.0


class Hold(object):

    def __init__(self, key, who, start):
        self.key = key
        self.who = who
        self.start = start          # lock() called
        self.got = None             # lock() returned
        self.rel = None             # unlock() called
        self.end = None             # unlock() returned
        self.dead = False           # the holder will never release it

    def __repr__(self):
        def f(x):
            return '-' if x is None else '%.3f' % (x - EPOCH)
        return '%s holds %s: asked %s, got %s, releases %s, done %s%s' % (
            self.who, self.key, f(self.start), f(self.got), f(self.rel),
            f(self.end), ', dead' if self.dead else '')


class Try(object):

    """A failed attempt."""

    def __init__(self, key, who, start, end, timeout):
        self.key = key
        self.who = who
        self.start = start
        self.end = end
        self.timeout = timeout


EPOCH = 0
MARGIN = 0.95       # releasing takes no longer when it matters


class Site(object):

    def __init__(self, w, kind, nproc, nthreads, life, skew=0.0):
        global EPOCH
        EPOCH = w.now
        self.w = w
        self.kind = kind
        self.life = life
        self.skew = skew
        self.holds = []
        self.tries = []
        self.slow = 0.0             # longest attempt to get a free lock
        if kind == 'mem':
            self.store = edmlib.Mem(w, s.METADATA, s.STORE)
        else:
            self.store = edmlib.Sql(w, s.METADATA, s.STORE)
            self.db = self.store.db
        self.procs = {}
        w.tags['skew'] = {}
        for i in range(nproc):
            self.process('P%d' % i)
        self.threads = []
        self.plans = []

    def process(self, name):
        """A (new) process called name."""
        if self.skew:
            self.w.tags['skew'][name] = self.w.pick(
                (0.0, self.skew, -self.skew))
        c = self.store.open()
        self.procs[name] = s.blockstore.LockStore(
            c['Locks'], lock_timeout=self.life)

    def errors(self):
        if self.kind == 'mem':
            return 0
        return self.db.errors.get(self.w.current.name, 0)

    # ------------------------------------------------------------ the lock
    def lock(self, proc, key, timeout):
        """Returns a Hold or None."""
        w = self.w
        ls = self.procs[proc]
        h = Hold(key, w.current.name, w.now)
        before = self.errors()
        try:
            ctx = ls.lock(key, timeout)
        except LockError:
            self.tries.append(Try(key, h.who, h.start, w.now, timeout))
            w.log('no', key, h.who)
            w.probe('timeout')
            return None, None
        except (SQLError, sqlite3.Error) as e:
            if self.errors() == before:
                raise Violation('lock-error', '%s: lock(%s) raised %s: %s '
                                'although no fault was injected' % (
                                    h.who, key, type(e).__name__, e))
            return None, None
        h.got = w.now
        w.log('got', key, h.who)
        self.holds.append(h)
        self.exclusive(h)
        return h, ctx

    def exclusive(self, h):
        """Nobody else can hold this lock now."""
        for o in self.holds:
            if o is h or o.key != h.key:
                continue
            end = o.rel if o.rel is not None else None
            if end is not None and end <= h.got:
                continue
            # it was written no earlier than
            if o.got + self.life - ROUND - self.slack(o) <= h.got:
                self.w.probe('stale-taken')
                continue
            if self.overtaken(o):
                continue
            raise Violation('two-holders', '%r and, younger than %s '
                            'seconds, %r' % (h, self.life, o))

    def overtaken(self, o):
        """A previous holder was so slow to release its lock that o had got
        it in the meantime: documented to need more than a second."""
        for x in self.holds:
            if x is o or x.key != o.key or x.rel is None:
                continue
            end = self.w.now if x.end is None else x.end
            if end - x.rel > MARGIN and x.rel <= o.got <= end:
                self.w.probe('slow-release')
                return True
        return False

    def slack(self, o):
        # the clocks differ; and the time written may be as old as the last
        # try of the attempt
        return 2 * self.skew + min(o.got - o.start, self.attempt)

    attempt = 6.0

    def unlock(self, proc, h, ctx):
        w = self.w
        h.rel = w.now
        before = self.errors()
        try:
            if ctx is None:
                self.procs[proc].unlock(h.key)
            else:
                ctx.__exit__(None, None, None)
        except (SQLError, sqlite3.Error) as e:
            if self.errors() == before:
                raise Violation('unlock-error', '%s: unlock(%s) raised %s: '
                                '%s although no fault was injected' % (
                                    h.who, h.key, type(e).__name__, e))
            # it may or may not be released; long enough it is
            h.dead = True
        h.end = w.now
        w.log('rel', h.key, h.who)

    # ------------------------------------------------------------ afterwards
    def check_tries(self, bound):
        """Every failed attempt had a reason, and took its time."""
        for t in self.tries:
            took = t.end - t.start
            if took > t.timeout + bound:
                raise Violation('late', '%s: lock(%s, %s) failed after '
                                '%.3f seconds' % (t.who, t.key, t.timeout,
                                                  took))
            if took < t.timeout - 0.001:
                raise Violation('early', '%s: lock(%s, %s) failed after '
                                '%.3f seconds' % (t.who, t.key, t.timeout,
                                                  took))
            # was it free all the time between two tries?
            need = t.timeout / 5.0 + bound
            edges = [t.start]
            for h in sorted((h for h in self.holds if h.key == t.key),
                            key=lambda h: h.start):
                end = h.end if h.end is not None else float('inf')
                if h.dead or h.end is None:
                    end = h.got + self.life + ROUND + 2 * self.skew
                if end < t.start or h.start > t.end:
                    continue
                edges.append((h.start, end))
            at = t.start
            for a, b in edges[1:]:
                if a - at > need:
                    break
                at = max(at, b)
            else:
                if t.end - at > need:
                    a = t.end
                else:
                    continue
            raise Violation('starved', '%s: lock(%s, %s) failed at %.3f '
                            'although nobody had the lock from %.3f to %.3f'
                            % (t.who, t.key, t.timeout, t.end - EPOCH,
                               at - EPOCH, min(a, t.end) - EPOCH))

    def check_free(self, bound):
        """Everything is over: a new process gets every lock at once or
        when the locks of dead holders have become stale."""
        w = self.w
        self.process('last')

        def go():
            for k in sorted(set(h.key for h in self.holds)):
                h, ctx = self.lock('last', k, bound)
                if h is None:
                    raise Violation('never-free', 'lock %s is not obtained '
                                    'within %s seconds after the others '
                                    'have gone' % (k, bound))
                self.unlock('last', h, ctx)
        w.join(w.spawn(go, 'last', group='last'))


KEYS = ('k1', 'k2', 'k3')


def contender(site, proc, n, keys, timeouts, holds, stop=None):
    w = site.w

    def go():
        for i in range(n):
            k = w.pick(keys)
            if w.chance(0.3):
                w.sleep(w.pick((0.01, 1.0, 5.0)))
            h, ctx = site.lock(proc, k, w.pick(timeouts))
            if h is None:
                continue
            d = w.pick(holds)
            if d:
                w.sleep(d)
            if w.chance(0.2):
                ctx = None
            site.unlock(proc, h, ctx)
    return go


def run(w, kind, skew=0.0, life=(30, 180), holds=(0, 0, 0.01, 0.5, 3.0),
        timeouts=(2, 10, 60, 0.5, 7.5), n=(1, 4)):
    one = kind == 'mem' or w.chance(0.3)
    np = 1 if one else w.between(2, 3)
    site = Site(w, kind, np, None, w.pick(life), skew)
    keys = KEYS[:w.between(1, 3)]
    for p in sorted(site.procs):
        for i in range(w.between(2, 4) if one else w.between(1, 2)):
            site.threads.append(w.spawn(
                contender(site, p, w.between(*n), keys, timeouts, holds),
                '%s-T%d' % (p, i), group=p))
    return site


def finish(site, bound=6.0):
    w = site.w
    for t in site.threads:
        w.join(t)
    site.check_tries(bound)


def contend_mem(w):
    """Threads of one process."""
    w.randomize_sched(line_mean=(0, 0, 30, 200))
    site = run(w, 'mem')
    finish(site, 0.5)
    site.check_free(1)


def contend_sql(w):
    """Threads of several processes."""
    w.randomize_sched(line_mean=(0, 0, 0, 300))
    site = run(w, 'sql')
    finish(site)
    site.check_free(8)


def skewed(w):
    """The clocks of the processes differ a little."""
    w.randomize_sched(line_mean=(0, 0, 0, 300))
    site = run(w, 'sql', skew=w.pick((0.5, 3.0)), life=(20, 60),
               holds=(0, 0.5, 3.0, 8.0))
    finish(site)
    site.check_free(8)


def stale(w):
    """Holders that die or overstay."""
    w.randomize_sched(line_mean=(0, 0, 30, 200))
    kind = w.pick(('mem', 'sql'))
    life = w.pick((5, 20))
    site = run(w, kind, life=(life,), timeouts=(3 * life,), n=(1, 3),
               skew=0.0 if kind == 'mem' else w.pick((0.0, 0.0, 1.0)),
               holds=(0, 0.5, life * 0.8, life + 3.5, life * 2.5))
    procs = sorted(site.procs)

    def dier(i):
        def go():
            w.sleep(w.pick((0, 0.5, 3.0)))
            h, ctx = site.lock(w.current.group, w.pick(KEYS[:2]), life * 3)
            if h is not None:
                h.dead = True
                w.count_fault('holder-dies')
        return go
    for i in range(w.between(1, 2)):
        p = w.pick(procs)
        site.threads.append(w.spawn(dier(i), '%s-D%d' % (p, i), group=p))
    finish(site)
    site.check_free(life + 8)


def late(w):
    """A holder releases its lock just as it becomes stale and others are
    waiting for that."""
    w.randomize_sched(p_switch=(0.1, 0.3, 0.5), line_mean=(10, 30, 30, 100))
    kind = w.pick(('mem', 'mem', 'sql'))
    life = w.pick((5, 20))
    site = Site(w, kind, 1 if kind == 'mem' else w.between(1, 2), None, life)
    procs = sorted(site.procs)
    end = w.now + 1 + life + w.pick((0.0, 0.01, 0.3, 0.6, 0.9, 1.0, 1.1, 3.0))

    def holder():
        h, ctx = site.lock(procs[0], 'k1', 1)
        w.sleep(end - w.now)
        site.unlock(procs[0], h, ctx)

    def contend(p, n, d):
        def go():
            w.sleep(end - w.now)
            for i in range(n):
                h, ctx = site.lock(p, 'k1', w.pick((1, 3)))
                if h is not None:
                    w.sleep(d)
                    site.unlock(p, h, ctx)
        return go
    site.threads.append(w.spawn(holder, '%s-H' % procs[0], group=procs[0]))
    for i in range(w.between(2, 3)):
        p = w.pick(procs)
        site.threads.append(w.spawn(
            contend(p, w.between(1, 2), w.pick((0.0, 0.05, 0.5))),
            '%s-T%d' % (p, i), group=p))
    for t in site.threads:
        w.join(t)
    site.check_free(life + 8)


def crash(w):
    """Processes that crash at any statement."""
    w.randomize_sched(line_mean=(0, 0, 0, 300))
    life = w.pick((5, 20))
    site = run(w, 'sql', life=(life,), timeouts=(3 * life,), n=(1, 3),
               holds=(0, 0.5, life * 0.5))
    db = site.db

    def gone(group):
        for h in site.holds:
            if h.who.startswith(group + '-') and h.end is None:
                h.dead = True
        for t in site.threads:
            if t.group == group and t is not w.current:
                w.kill_thread(t)
    db.on_crash = gone
    db.crash_at = db.count + 1 + w.draw(60)
    # a crashed attempt may have taken the lock
    for t in site.threads:
        w.join(t)
    w.sleep(life + ROUND)
    site.check_free(8)


def broken(w):
    """Statements and commits that fail."""
    w.randomize_sched(line_mean=(0, 0, 0, 300))
    life = w.pick((5, 20))
    site = run(w, 'sql', life=(life,), timeouts=(3 * life, 2), n=(1, 4),
               holds=(0, 0.5, life * 0.5))
    db = site.db
    p = w.pick((0.02, 0.1))
    for k in w.pick((('p_read',), ('p_write',), ('p_busy',), ('p_commit',),
                     ('p_unknown',), ('p_commit_busy',), ('p_connect',),
                     ('p_read', 'p_write', 'p_commit', 'p_connect'))):
        setattr(db, k, p)
    for t in site.threads:
        w.join(t)
    db.calm()
    w.sleep(life + ROUND)
    site.check_free(8)


CHECK = Check(
    'C12',
    [Scenario('contend-mem', contend_mem, quick=500),
     Scenario('contend-sql', contend_sql, quick=400),
     Scenario('skewed', skewed, quick=200),
     Scenario('stale', stale, quick=400),
     Scenario('late', late, quick=500),
     Scenario('crash', crash, quick=300),
     Scenario('broken', broken, quick=300)],
    rule='no two holders of one lock within its lifetime; a free or stale '
         'lock is obtained; an attempt ends within its time-out',
    real=['pyslet.blockstore.LockStore', 'pyslet.odata2.memds',
          'pyslet.odata2.sqlds on the sqlite3 library and a real file'],
    stub=['sqlite3.connect passes through a seam; processes are groups of '
          'threads with their own containers and clocks'],
    faults=['holder-dies', 'process-crash', 'connect-error',
            'sql-read-error', 'sql-write-error', 'sql-write-busy',
            'commit-error', 'commit-busy', 'commit-unknown'],
    line_files=['pyslet/blockstore.py', 'pyslet/odata2/memds.py',
                'pyslet/odata2/sqlds.py'],
    probes=['timeout', 'stale-taken', 'sql-busy'])
