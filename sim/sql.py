"""SQLite seam: the real sqlite3 library behind connections that yield, wait
for locks in simulated time, fail and crash.

The statements are executed by the real library on a real file (or in
memory); what is simulated is when they run, whether they fail, how long a
connection waits for the lock of another one, and the death of a process,
which closes its connections without a commit.
"""
import sqlite3
import weakref

from . import core

_real = {'connect': sqlite3.connect}

READS = ('SELECT', 'PRAGMA')


class SimConn(object):

    def __init__(self, db, path, kw):
        w = db.w
        kw = dict(kw)
        self.timeout = kw.pop('timeout', 5.0)
        kw['check_same_thread'] = False
        self.db = db
        self.real = _real['connect'](path, timeout=0, **kw)
        self.closed = False
        self.interrupted = False
        self.busy = None            # thread inside a call
        self.group = w.current.group if w.me() is not None else None
        self.opened_by = w.current.name if w.me() is not None else None
        self.used_by = set()
        self.in_call = 0
        self.cursors = weakref.WeakSet()
        db.conns.append(self)

    # ------------------------------------------------------------ the seam
    def enter(self, what):
        """A call of the thread is about to reach the library."""
        db = self.db
        w = db.w
        if w.me() is None:
            return
        me = w.current
        if self.closed:
            raise sqlite3.ProgrammingError(
                'Cannot operate on a closed database.')
        if db.on_call is not None:
            db.on_call(self, what)
        self.used_by.add(me.name)
        if self.in_call and self.busy is not me:
            db.shared.append((self, self.busy.name, me.name, what))
        last, self.busy = self.busy, me
        self.in_call += 1
        try:
            w.yield_point('sql-' + what)
        finally:
            self.in_call -= 1
            self.busy = last
        if self.closed:
            raise sqlite3.ProgrammingError(
                'Cannot operate on a closed database.')
        db.count += 1
        if db.crash_at is not None and db.count >= db.crash_at and \
                what in db.crash_in:
            db.crash_at = None
            db.crash()

    def run(self, what, fn):
        """Execute with the busy handler in simulated time."""
        db = self.db
        w = db.w
        if w.me() is None:
            return fn()
        wait = 0.001
        end = w.now + self.timeout
        while True:
            try:
                return fn()
            except sqlite3.OperationalError as e:
                if 'locked' not in str(e) and 'busy' not in str(e):
                    raise
                w.probe('sql-busy')
                if w.now >= end:
                    w.probe('sql-busy-timeout')
                    raise
            self.in_call += 1
            self.busy = w.current
            try:
                w.sleep(wait * (0.5 + w.draw(100, 'sql') / 100.0))
            finally:
                self.in_call -= 1
                self.busy = None
            wait = min(wait * 2, 0.1)
            if self.interrupted:
                self.interrupted = False
                raise sqlite3.OperationalError('interrupted')
            if self.closed:
                raise sqlite3.ProgrammingError(
                    'Cannot operate on a closed database.')

    def hurt(self, kind, p, message, lost):
        """Inject an error; *lost* if the transaction goes with it."""
        db = self.db
        if db.fault(kind, p):
            if lost:
                try:
                    self.real.rollback()
                except sqlite3.Error:
                    pass
            raise sqlite3.OperationalError(message)

    # ------------------------------------------------------------- DB API
    def cursor(self):
        self.enter('cursor')
        return SimCursor(self)

    def commit(self):
        db = self.db
        self.enter('commit')
        if self.real.in_transaction:
            self.hurt('commit-busy', db.p_commit_busy, 'database is locked',
                      False)
            self.hurt('commit-error', db.p_commit, 'disk I/O error', True)
        self.run('commit', self.real.commit)
        db.commits += 1
        if db.fault('commit-unknown', db.p_unknown):
            me = db.w.current.name
            db.unknown[me] = db.unknown.get(me, 0) + 1
            # the change is made but the caller is told otherwise
            raise sqlite3.OperationalError('disk I/O error')

    def rollback(self):
        self.enter('rollback')
        self.real.rollback()

    def close(self):
        if self.closed:
            return
        w = self.db.w
        if w.me() is not None and not w.quiet:
            w.yield_point('sql-close')
        if self.closed:
            return
        self.closed = True
        if self.in_call and self.busy is not w.current:
            self.db.shared.append((self, self.busy.name,
                                   w.current.name, 'close'))
        self.real.close()
        if w.me() is not None and self.db.fault('close-error',
                                                self.db.p_close):
            raise sqlite3.OperationalError('connection already lost')

    def kill(self):
        """Nothing of this connection survives: no statement, no lock."""
        for cursor in list(self.cursors):
            cursor.real.close()
        self.real.rollback()
        self.real.close()

    def interrupt(self):
        self.db.interrupts += 1
        if self.in_call:
            self.interrupted = True
        self.real.interrupt()

    @property
    def in_transaction(self):
        return self.real.in_transaction

    def execute(self, *args):
        c = self.cursor()
        c.execute(*args)
        return c

    def create_function(self, *args, **kw):
        return self.real.create_function(*args, **kw)


class SimCursor(object):

    def __init__(self, conn):
        self.conn = conn
        self.real = conn.real.cursor()
        conn.cursors.add(self)

    def execute(self, sql, params=None):
        conn = self.conn
        db = conn.db
        word = sql.split(None, 1)[0].upper()
        conn.enter('read' if word in READS else 'write')
        if db.w.me() is not None and word != 'PRAGMA':
            if word in READS:
                conn.hurt('sql-read-error', db.p_read, 'disk I/O error',
                          False)
            else:
                conn.hurt('sql-write-busy', db.p_busy, 'database is locked',
                          False)
                conn.hurt('sql-disk-full', db.p_full,
                          'database or disk is full', db.w.chance(0.5, 'sql')
                          if db.p_full else False)
                conn.hurt('sql-write-error', db.p_write, 'disk I/O error',
                          True)
        if params is None:
            params = ()
        conn.run('execute', lambda: self.real.execute(sql, params))
        return self

    def fetchone(self):
        self.conn.enter('fetch')
        return self.conn.run('fetch', self.real.fetchone)

    def fetchall(self):
        self.conn.enter('fetch')
        return self.conn.run('fetch', self.real.fetchall)

    def fetchmany(self, *args):
        self.conn.enter('fetch')
        return self.conn.run('fetch', lambda: self.real.fetchmany(*args))

    def __iter__(self):
        while True:
            row = self.fetchone()
            if row is None:
                break
            yield row

    def close(self):
        self.real.close()

    @property
    def rowcount(self):
        return self.real.rowcount

    @property
    def lastrowid(self):
        return self.real.lastrowid

    @property
    def description(self):
        return self.real.description


class DB(object):

    """All SQLite connections of a run."""

    def __init__(self, w):
        self.w = w
        w.sql = self
        self.conns = []
        self.p_connect = 0.0        # connecting fails
        self.p_close = 0.0          # closing reports an error
        self.p_read = 0.0           # a query fails
        self.p_write = 0.0          # a change fails, transaction lost
        self.p_busy = 0.0           # a change finds the database locked
        self.p_full = 0.0
        self.p_commit = 0.0         # commit fails, transaction lost
        self.p_commit_busy = 0.0    # commit fails, may be retried
        self.p_unknown = 0.0        # commit done and reported as failed
        self.crash_at = None        # crash at the n-th call from now
        self.crash_in = ('read', 'write', 'commit', 'fetch', 'cursor',
                         'rollback', 'connect')
        self.on_crash = None
        self.on_call = None
        self.count = 0
        self.commits = 0
        self.interrupts = 0
        self.shared = []            # uses of a connection by two threads
        self.errors = {}            # thread name -> faults injected
        self.unknown = {}           # those after a commit

    def calm(self):
        for k in vars(self):
            if k.startswith('p_'):
                setattr(self, k, 0.0)

    def fault(self, kind, p):
        if p and self.w.fault(kind, p, 'sql'):
            me = self.w.current.name
            self.errors[me] = self.errors.get(me, 0) + 1
            return True
        return False

    def open_conns(self, group=None):
        return [c for c in self.conns if not c.closed and
                (group is None or c.group == group)]

    def crash(self):
        """The process of the running thread dies here."""
        w = self.w
        w.count_fault('process-crash')
        w.note('crash')
        if self.on_crash is not None:
            self.on_crash(w.current.group)
        self.forget(w.current.group)
        w.die()

    def forget(self, group):
        """The connections of a dead process: closed, nothing committed."""
        for c in self.conns:
            if c.group == group and not c.closed:
                c.closed = True
                c.kill()


def connect(path, *args, **kw):
    w = core.WORLD
    db = getattr(w, 'sql', None) if w is not None else None
    if db is None:
        return _real['connect'](path, *args, **kw)
    if w.me() is not None:
        w.yield_point('sql-connect')
        db.count += 1
        if db.crash_at is not None and db.count >= db.crash_at and \
                'connect' in db.crash_in:
            db.crash_at = None
            db.crash()
        if db.fault('connect-error', db.p_connect):
            raise sqlite3.OperationalError('unable to open database file')
    conn = SimConn(db, path, kw)
    if w.me() is not None and w.chance(0.3, 'sql'):
        # opening takes a while
        w.sleep(w.pick((0.001, 0.05), 'sql'))
    return conn


def install():
    sqlite3.connect = connect
