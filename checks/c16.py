"""C16: the pool of database connections of the SQL data service."""
import sqlite3

from sim.core import Violation
from sim.runner import Check, Scenario
from . import edmlib, model

import threading

from pyslet.odata2 import sqlds
from pyslet.odata2.sqlds import SQLError

# waiting for anything that needs no waiting
SLACK = 1.0
# finding what a thread that ended left behind
LOST = 30.0


# ------------------------------------------------------- a database module

class Api(object):

    """A database module of some thread safety level."""

    paramstyle = 'qmark'

    class Error(Exception):
        pass

    class OperationalError(Error):
        pass

    class ProgrammingError(Error):
        pass

    class NotSupportedError(Error):
        pass

    def __init__(self, threadsafety):
        self.threadsafety = threadsafety


class Conn(object):

    """A connection that sees who uses it."""

    def __init__(self, pool):
        self.pool = pool
        self.opener = threading.current_thread()
        self.busy = None
        self.closed = False

    def use(self, t=0.0):
        pool = self.pool
        me = threading.current_thread()
        if self.closed:
            raise Api.ProgrammingError('closed')
        if self.busy is not None:
            raise Violation('shared', '%s uses a connection while %s does' % (
                me.name, self.busy.name))
        if pool.api.threadsafety <= 1 and self.opener is not me:
            raise Violation(
                'foreign', '%s uses a connection opened by %s, which the '
                'module does not allow' % (me.name, self.opener.name))
        if pool.api.threadsafety == 0:
            for c in pool.conns:
                if c.busy:
                    raise Violation('module', '%s and %s use the module' % (
                        me.name, c.busy.name))
        self.busy = me
        try:
            pool.w.yield_point('use')
            if t:
                pool.w.sleep(t)
        finally:
            self.busy = None
        if pool.w.fault('statement-error', pool.p_use, 'api'):
            raise Api.OperationalError('gone')

    def cursor(self):
        if self.closed:
            raise Api.ProgrammingError('closed')
        return Cursor(self)

    def commit(self):
        self.use()

    def rollback(self):
        self.use()

    def close(self):
        pool = self.pool
        pool.w.yield_point('close')
        if self.busy is not None and not pool.container.closing.is_set():
            raise Violation('shared', '%s closes a connection %s uses' % (
                threading.current_thread().name, self.busy.name))
        self.closed = True
        pool.w.note('closed %d' % pool.conns.index(self))
        if pool.w.fault('close-error', pool.p_close, 'api'):
            raise Api.OperationalError('lost')


class Cursor(object):

    def __init__(self, conn):
        self.conn = conn

    def execute(self, sql, params=None):
        self.conn.use()

    def close(self):
        pass


class Container(sqlds.SQLEntityContainer):

    pool = None

    def open(self):
        return self.pool.connect()


class Pool(object):

    """What is known about the connections and their users."""

    def __init__(self, w, level, size, **kw):
        self.w = w
        self.api = Api(level)
        self.size = 1 if level == 0 else size
        self.conns = []
        self.connecting = 0
        self.p_connect = self.p_close = self.p_use = 0.0
        doc, c = edmlib.parse(model.metadata(), model.NAME)
        self.doc = doc
        self.container = Container(
            container=c, dbapi=self.api, max_connections=size, **kw)
        self.container.pool = self
        self.held = {}          # item -> [threads of each acquisition]
        self.free_since = w.now
        self.closed_at = w.now + 1e9

    # the number of open connections
    def count(self):
        return sum(not c.closed for c in self.conns) + self.connecting

    def connect(self):
        w = self.w
        if self.api.threadsafety == 0:
            for c in self.conns:
                if c.busy:
                    raise Violation('module', 'connecting while %s uses the '
                                    'module' % c.busy.name)
        self.connecting += 1
        if self.count() > self.size:
            raise Violation('too-many', '%d connections with a maximum of '
                            '%d' % (self.count(), self.size))
        try:
            w.yield_point('connect')
            if w.chance(0.3):
                w.sleep(w.pick((0.001, 0.05)))
            if w.fault('connect-error', self.p_connect, 'api'):
                raise Api.OperationalError('no connection')
            self.conns.append(Conn(self))
            w.note('connected %d' % (len(self.conns) - 1))
            return self.conns[-1]
        finally:
            self.connecting -= 1

    def available(self):
        """Connections nobody has, those of dead threads included."""
        return self.size - sum(
            any(t._st.state not in ('done', 'dead') for t in ts)
            for ts in self.held.values())

    def update(self):
        if self.available() <= 0:
            self.free_since = None
        elif self.free_since is None:
            self.free_since = self.w.now

    def acquire(self, timeout):
        w = self.w
        me = threading.current_thread()
        start = w.now
        closed = self.container.closing.is_set()
        item = self.container.acquire_connection(timeout)
        took = w.now - start
        if item is None:
            w.log('no-connection', me.name)
            if self.container.closing.is_set():
                if start < self.closed_at < w.now - SLACK:
                    raise Violation('stuck', 'waited for %.3f s after close' %
                                    (w.now - self.closed_at))
                return None
            w.probe('timed-out')
            if timeout is None or took < timeout - 1e-6:
                raise Violation('gave-up', 'no connection after %.3f s, '
                                'timeout %r' % (took, timeout))
            if took > timeout + SLACK:
                raise Violation('late', 'gave up after %.3f s, timeout %r' % (
                    took, timeout))
            if self.free_since is not None and \
                    w.now - self.free_since > self.lag:
                raise Violation(
                    'starved', 'no connection in %.3f s while %d of %d were '
                    'free for %.3f s' % (took, self.available(), self.size,
                                         w.now - self.free_since))
            return None
        if self.free_since is not None:
            late = w.now - max(start, self.free_since)
            if late > self.lag + SLACK:
                raise Violation(
                    'overlooked', 'waited %.3f s for a connection that was '
                    'free' % late)
        if closed:
            raise Violation('closing', 'a connection while closing')
        if timeout is not None and took > timeout + SLACK:
            raise Violation('late', 'waited %.3f s, timeout %r' % (
                took, timeout))
        if item.dbc is None or item.dbc.closed and \
                not self.container.closing.is_set():
            raise Violation('dead', 'acquired a closed connection')
        for x, ts in self.held.items():
            others = [t for t in ts if t is not me]
            if (x is item or x.dbc is item.dbc) and others and \
                    not self.container.closing.is_set():
                raise Violation('shared', '%s and %s have one connection' % (
                    me.name, others[0].name))
        self.held.setdefault(item, []).append(me)
        self.update()
        w.log('acquired', me.name, self.conns.index(item.dbc))
        return item

    def release(self, item, owner=None):
        me = owner or threading.current_thread()
        self.w.log('release', me.name)
        ts = self.held.get(item, [])
        if me in ts:
            ts.remove(me)
            if not ts:
                del self.held[item]
        self.container.release_connection(item)
        # (free when the release is done)
        self.update()

    # a released connection is found at once
    lag = SLACK

    def gone(self, me):
        """A thread ends with what it holds."""
        # and nobody is told of this
        self.lag = LOST
        self.w.log('ends', me.name)
        for item, ts in list(self.held.items()):
            ts[:] = [t for t in ts if t is not me]
            if not ts:
                del self.held[item]
        self.update()


def worker(w, pool, steps, holds, timeouts, p_die, p_other, given):
    def go():
        me = threading.current_thread()
        for i in range(steps):
            mine = []
            for j in range(w.pick((1, 1, 1, 2, 3))):
                try:
                    item = pool.acquire(w.pick(timeouts))
                except Api.Error:
                    w.probe('connect-failed')
                    continue
                if item is None:
                    continue
                if mine and item is not mine[0] and \
                        not pool.container.closing.is_set():
                    raise Violation('second', '%s has two connections' %
                                    me.name)
                mine.append(item)
                try:
                    t = sqlds.SQLTransaction(pool.container, item)
                    try:
                        t.begin()
                        t.execute('SELECT')
                        if w.chance(0.5):
                            t.execute('UPDATE')
                        hold = w.pick(holds)
                        if hold:
                            w.sleep(hold)
                        t.commit()
                    except Exception as e:
                        t.rollback(e)
                    finally:
                        t.close()
                except (SQLError, Api.Error):
                    if not (pool.p_use or pool.p_connect or pool.p_close or
                            pool.container.closing.is_set()):
                        raise
            if mine and w.chance(p_die):
                # without a release
                w.count_fault('thread-ends-holding')
                pool.gone(me)
                return
            while mine:
                item = mine.pop()
                if not mine and w.chance(p_other):
                    given.append((item, me))
                else:
                    pool.release(item)
            while any(owner is not me for item, owner in given):
                item, owner = [x for x in given if x[1] is not me][0]
                given.remove((item, owner))
                w.probe('released-by-another')
                pool.release(item, owner)
            if w.chance(0.3):
                w.sleep(w.pick((0.0, 0.5, 3.0)))
        # nobody took these
        for item, owner in list(given):
            if owner is me and (item, me) in given:
                given.remove((item, me))
                pool.release(item)
    return go


def start(w, fn, name):
    t = threading.Thread(target=fn, name=name)
    t.start()
    return t


def capacity(w, pool):
    """As many threads as the pool has connections all get one."""
    pool.p_connect = pool.p_close = pool.p_use = 0.0
    got = []
    ready = threading.Event()

    def one():
        item = pool.acquire(30)
        if item is None:
            return
        item.dbc.use()
        got.append(item)
        if len(got) == pool.size:
            ready.set()
        ready.wait(60)
        pool.release(item)
    ts = [start(w, one, 'full%d' % i) for i in range(pool.size)]
    for t in ts:
        t.join()
    if len(got) != pool.size:
        raise Violation('shrunk', 'only %d of %d connections are available' %
                        (len(got), pool.size))


def shut(w, pool, timeout, users):
    """Close the container, then nothing is open."""
    t0 = w.now
    pool.container.close(timeout)
    pool.closed_at = w.now
    took = w.now - t0
    if took > timeout * (pool.size + 1) + SLACK:
        raise Violation('slow-close', 'close took %.3f s, timeout %.3f' % (
            took, timeout))
    for t in users:
        t.join(120)
        if t.is_alive():
            raise Violation('stuck', '%s still waits after close' % t.name)
    if pool.count():
        raise Violation('leak', '%d connections are open after close' %
                        pool.count())
    if pool.container.acquire_connection(1) is not None:
        raise Violation('closing', 'a connection from a closed container')


def levels(w):
    """Modules of each level, failures, threads that end."""
    w.randomize_sched(line_mean=(0, 0, 50))
    w.tags['reuse_idents'] = w.chance(0.5)
    level = w.pick((0, 1, 2, 2))
    kw = {}
    if w.chance(0.3):
        kw['max_idle'] = w.pick((0.5, 30.0, 400.0))
    pool = Pool(w, level, w.between(1, 3), **kw)
    p_die = w.pick((0.0, 0.0, 0.2))
    p_other = w.pick((0.0, 0.0, 0.4)) if level > 1 else 0.0
    for rnd in range(w.between(1, 2)):
        if w.chance(0.5):
            pool.p_connect = w.pick((0.0, 0.3))
            pool.p_use = w.pick((0.0, 0.2))
            pool.p_close = w.pick((0.0, 0.3))
        holds = w.pick(((0.0,), (0.0, 0.1), (0.0, 2.0, 7.0)))
        timeouts = w.pick(((1.0, 5.0), (90.0,)))
        given = []
        ts = [start(w, worker(w, pool, w.between(1, 4), holds, timeouts,
                              p_die, p_other, given), 'W%d.%d' % (rnd, i))
              for i in range(w.between(2, 5))]
        if w.chance(0.5):
            # by hand
            for i in range(w.between(1, 3)):
                w.sleep(w.pick((0.0, 0.1, 2.0)))
                pool.container.pool_cleaner(w.pick((0.0, 1.0, 900.0)))
        for t in ts:
            t.join()
        for item, owner in given:
            pool.release(item, owner)
        if w.chance(0.5):
            capacity(w, pool)
    capacity(w, pool)
    shut(w, pool, 5, [])


def closing(w):
    """The container is closed while it is used."""
    w.randomize_sched(line_mean=(0, 0, 50))
    w.tags['reuse_idents'] = w.chance(0.3)
    level = w.pick((0, 1, 2, 2))
    pool = Pool(w, level, w.between(1, 3))
    p_die = w.pick((0.0, 0.2))
    if w.chance(0.4):
        pool.p_connect = w.pick((0.0, 0.3))
        pool.p_use = w.pick((0.0, 0.2))
        pool.p_close = w.pick((0.0, 0.3))
    holds = w.pick(((0.0,), (0.0, 0.1), (0.0, 2.0, 20.0)))
    timeouts = w.pick(((1.0, 5.0), (90.0,), (None,) if not p_die else (5.0,)))
    ts = [start(w, worker(w, pool, w.between(1, 4), holds, timeouts, p_die,
                          0.0, []), 'W%d' % i)
          for i in range(w.between(1, 5))]
    w.sleep(w.pick((0.0, 0.01, 0.1, 3.0)))
    for i in range(w.draw(40)):
        w.yield_point('main')
    shut(w, pool, w.pick((0.5, 5)), ts)


# ------------------------------------------------------------------ SQLite

def sqlite(w):
    """Threads with nested collections on a SQLite file."""
    w.randomize_sched(line_mean=(0, 0, 0, 100))
    w.tags['reuse_idents'] = w.chance(0.5)
    memory = w.chance(0.2)
    store = edmlib.Sql(w, model.metadata(), model.NAME, memory=memory)
    db = store.db
    size = 1 if memory else w.between(1, 3)
    kw = {'max_connections': size}
    if w.chance(0.3):
        kw['max_idle'] = w.pick((0.5, 30.0))
    c = store.open(**kw)
    container = c.sql_container
    history = []
    keys = [0]

    def on_call(conn, what):
        n = len(db.open_conns())
        if n > size:
            raise Violation('too-many', '%d connections are open, the '
                            'maximum is %d' % (n, size))
        for s in db.shared:
            if s[3] != 'close' or not container.closing.is_set():
                raise Violation('shared', '%s and %s use one connection '
                                '(%s)' % s[1:])
    db.on_call = on_call
    stop = []
    users = w.between(2, 4)
    holds = w.pick(((0.0,), (0.0, 0.2), (0.0, 1.0)))
    p_die = w.pick((0.0, 0.0, 0.15))
    faulty = w.chance(0.5)

    def use(me, depth, kept):
        name = w.pick(('Teams', 'Players', 'Tags'))
        before = db.errors.get(me, 0)
        t0 = w.now
        try:
            coll = c[name].open()
        except sqlds.DatabaseBusy:
            if container.closing.is_set():
                return
            raise Violation('starved', 'no connection in %.3f s' %
                            (w.now - t0))
        except (SQLError, sqlite3.Error):
            if db.errors.get(me, 0) == before and \
                    not container.closing.is_set():
                raise
            w.probe('connect-failed')
            return
        try:
            if depth and w.chance(0.5):
                use(me, depth - 1, kept)
            try:
                if w.chance(0.5):
                    keys[0] += 1
                    key = keys[0]
                    e = coll.new_entity()
                    e['id'].set_from_value(key)
                    coll.insert_entity(e)
                    history.append((name, key))
                    w.log('inserted', name, key)
                else:
                    n = 0
                    for e in coll.itervalues():
                        n += 1
                        if name == 'Teams' and w.chance(0.2):
                            with e['Players'].open() as players:
                                len(players)
                        if w.chance(0.1):
                            break
            except (SQLError, sqlite3.Error) as e:
                if db.errors.get(me, 0) == before and \
                        not container.closing.is_set() and \
                        'locked' not in str(e) and \
                        not isinstance(e, sqlds.DatabaseBusy):
                    raise
                if isinstance(e, sqlds.DatabaseBusy):
                    raise Violation('starved', 'no second connection')
            hold = w.pick(holds)
            if hold:
                w.sleep(hold)
        except BaseException:
            coll.close()
            raise
        if w.chance(p_die):
            w.count_fault('thread-ends-holding')
            if w.chance(0.5):
                # in the middle of a transaction
                t = sqlds.SQLTransaction(container, coll.connection)
                try:
                    t.begin()
                    t.execute("INSERT INTO Badges (id, name) VALUES "
                              "(%d, 'ghost')" % len(me))
                    w.probe('thread-ends-writing')
                except sqlite3.Error:
                    pass
                kept.append(t)
            kept.append(coll)
            raise Ends()
        coll.close()

    class Ends(Exception):
        pass

    def work(me, n):
        def go():
            kept = []
            try:
                for i in range(n):
                    use(me, 2, kept)
                    if w.chance(0.2):
                        w.sleep(w.pick((0.0, 0.5, 3.0)))
            except Ends:
                left.extend(kept)
        return go
    left = []
    for rnd in range(w.between(1, 2)):
        if faulty:
            db.p_connect = w.pick((0.0, 0.2))
            db.p_close = w.pick((0.0, 0.2))
            db.p_read = w.pick((0.0, 0.1))
            db.p_write = w.pick((0.0, 0.1))
            db.p_commit = w.pick((0.0, 0.1))
        ts = [start(w, work('W%d.%d' % (rnd, i), w.between(1, 4)),
                    'W%d.%d' % (rnd, i)) for i in range(users)]
        for t in ts:
            t.join()
        db.calm()
    # all connections are available
    got = []
    full = threading.Event()

    def one():
        try:
            coll = c['Teams'].open()
        except sqlds.DatabaseBusy:
            raise Violation('shrunk', 'not all of %d connections are '
                            'available' % size)
        len(coll)
        got.append(coll)
        if len(got) == size:
            full.set()
        full.wait(30)
        coll.close()
    ts = [start(w, one, 'full%d' % i) for i in range(size)]
    for t in ts:
        t.join()
    if len(got) != size or not full.is_set():
        raise Violation('shrunk', 'only %d of %d connections are available' %
                        (len(got), size))
    for name in ('Teams', 'Players', 'Tags'):
        there = set(r[0] for r in store.rows('SELECT id FROM %s' % name))
        lost = [k for n, k in history if n == name and k not in there]
        if lost:
            raise Violation('lost', 'inserted %s %s not there' % (
                name, lost))
    if store.rows('SELECT id FROM Badges'):
        raise Violation('ghost', 'the changes of a thread that ended before '
                        'it committed were made')
    container.close()
    db.on_call = None
    n = [x for x in db.open_conns() if x.opened_by is not None]
    if n:
        raise Violation('leak', '%d connections are open after close' %
                        len(n))


CHECK = Check(
    'C16',
    [Scenario('levels', levels, quick=1200),
     Scenario('closing', closing, quick=900),
     Scenario('sqlite', sqlite, quick=600)],
    rule='a connection has one user at a time, no more than the maximum are '
         'open, free connections are found, all are available when faults '
         'stop and none is open after close',
    real=['pyslet.odata2.sqlds connection pool, transactions and '
          'collections', 'the sqlite3 library on a real file'],
    stub=['database modules of thread safety level 0, 1 and 2 in the '
          'scenarios levels and closing'],
    faults=['connect-error', 'close-error', 'statement-error',
            'thread-ends-holding', 'ident-reused', 'sql-read-error',
            'sql-write-error', 'commit-error'],
    line_files=['pyslet/odata2/sqlds.py'],
    probes=['timed-out', 'connect-failed', 'released-by-another',
            'thread-ends-writing'])
