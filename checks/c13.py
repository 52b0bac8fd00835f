"""C13: a stored stream reads back exactly what was written to it."""
import hashlib
import io
import os
import sqlite3

from sim.core import Violation
from sim.fs import FS
from sim.runner import Check, Scenario
from . import edmlib, storelib as s

from pyslet.odata2.sqlds import SQLError

XML = os.path.join(os.path.dirname(s.blockstore.__file__), 'odata2',
                   'streamstore.xml')


def shipped():
    with io.open(XML, encoding='utf-8') as f:
        return f.read()


class Proc(object):

    """What a process has open."""


class Spec(object):

    """A stream as it should be."""

    def __init__(self, sid):
        self.sid = sid
        self.data = bytearray()
        self.hurt = False           # an operation failed half way
        self.exact = True           # nothing was ever written out of order
        self.gone = False

    def __repr__(self):
        return 'stream %d (%d bytes)' % (self.sid, len(self.data))


class Site(object):

    """A stream store used by threads of one or several processes."""

    def __init__(self, w, kind, files, nproc=1):
        self.w = w
        self.kind = kind
        self.size = w.pick((1, 3, 8, 8, 16, 40))
        own = w.chance(0.5)
        source, name = (s.METADATA, s.STORE) if own else \
            (shipped(), 'StreamStoreSchema.Container')
        cls = edmlib.Mem if kind == 'mem' else edmlib.Sql
        self.store = cls(w, source, name)
        self.hash_class = w.pick((hashlib.sha256, hashlib.md5))
        self.fs = FS(w, w.scratch()) if files else None
        self.specs = []
        self.procs = {}
        self.threads = []
        for i in range(nproc):
            self.process('P%d' % i)
        # data is made of few different blocks so that streams share them
        a = hashlib.sha512(b'%d' % w.draw(1000)).digest() * 2
        self.letters = [a[i:i + self.size] for i in range(w.between(1, 3))]

    def process(self, name):
        w = self.w
        w.quiet += 1
        try:
            p = Proc()
            c = self.store.open()
            p.ls = s.blockstore.LockStore(c['Locks'])
            if self.fs is not None:
                p.bs = s.blockstore.FileBlockStore(
                    dpath=s.OSFilePath(self.fs.root),
                    max_block_size=self.size, hash_class=self.hash_class)
            else:
                p.bs = s.blockstore.EDMBlockStore(
                    entity_set=c['Blocks'], max_block_size=self.size,
                    hash_class=self.hash_class)
            p.ss = s.blockstore.StreamStore(p.bs, p.ls, c['Streams'])
            p.c = c
            self.procs[name] = p
        finally:
            w.quiet -= 1

    def errors(self):
        me = self.w.current.name
        n = 0
        if self.kind == 'sql':
            n += self.store.db.errors.get(me, 0)
        if self.fs is not None:
            n += self.fs.errors.get(me, 0)
        return n

    def calm(self):
        if self.kind == 'sql':
            self.store.db.calm()
        if self.fs is not None:
            self.fs.p_eio = self.fs.p_full = self.fs.p_short = 0.0

    def bytes(self, n):
        """Some data that shares its blocks with other data."""
        w = self.w
        d = bytearray()
        while len(d) < n:
            d += w.pick(self.letters)
        return bytes(d[:n])

    def length(self):
        w = self.w
        return w.pick((0, 1, self.size - 1, self.size, self.size + 1,
                       2 * self.size, w.between(0, 3 * self.size)))


class Failed(Exception):

    """An operation met an injected fault."""


FAULTS = (SQLError, sqlite3.Error, OSError, s.blockstore.LockError)


class Client(object):

    """One thread; it alone writes to its streams."""

    def __init__(self, site, proc):
        self.site = site
        self.w = site.w
        self.ss = site.procs[proc].ss
        self.mine = []
        self.patient = False    # other processes may die holding locks

    def do(self, what, fn, *args):
        before = self.site.errors()
        try:
            return fn(*args)
        except Exception as e:
            if self.site.errors() > before or (
                    self.patient and isinstance(
                        e, s.blockstore.LockError)):
                self.w.log('failed', what)
                raise Failed(what)
            raise Violation('error', '%s raised %s: %s although no fault '
                            'was injected' % (what, type(e).__name__, e))

    # ------------------------------------------------------- whole streams
    def new(self):
        st = self.do('new_stream', self.ss.new_stream)
        spec = Spec(st['streamID'].value)
        for o in self.site.specs:
            if o.sid == spec.sid and not o.gone:
                raise Violation('same-id', 'two streams have the number %d'
                                % spec.sid)
        self.mine.append(spec)
        self.site.specs.append(spec)
        self.w.log('new')
        return spec

    def entity(self, spec):
        def go():
            return self.ss.get_stream(spec.sid)
        return self.do('get_stream %d' % spec.sid, go)

    def delete(self, spec):
        spec.hurt = True        # until it is done
        st = self.entity(spec)
        self.do('delete_stream %d' % spec.sid, self.ss.delete_stream, st)
        spec.gone = True
        self.mine.remove(spec)
        self.w.log('deleted')
        try:
            self.ss.get_stream(spec.sid)
        except KeyError:
            return
        except Exception:
            return
        raise Violation('undeleted', '%r still exists' % spec)

    def check(self, spec):
        """The stream reads back what was written."""
        st = self.entity(spec)
        if st['size'].value != len(spec.data):
            raise Violation('size', '%r has the recorded size %s' % (
                spec, st['size'].value))
        md5 = st['md5'].value
        if md5 is None:
            if spec.exact:
                raise Violation('md5', '%r was written from start to end '
                                'and has no md5' % spec)
        elif md5 != hashlib.md5(spec.data).digest():
            raise Violation('md5', '%r has the wrong md5 %s' % (
                spec, md5.hex()))

        def go():
            f = self.ss.open_stream(st, 'r')
            try:
                return f.readall()
            finally:
                f.close()
        data = self.do('read of %r' % spec, go)
        if data != spec.data:
            raise Violation('content', '%r reads back as %r, written was %r'
                            % (spec, data, bytes(spec.data)))
        self.w.log('ok', len(data))

    # ---------------------------------------------------------- file model
    def session(self, spec, mode, n, safe=False):
        """Use the stream as a file."""
        w = self.w
        st = self.entity(spec)
        was, spec.hurt = spec.hurt, True
        f = self.do('open_stream %r' % mode, self.ss.open_stream, st, mode)
        data = spec.data
        if 'w' in mode:
            del data[:]
            spec.exact = True
            was = False
        elif 'r' != mode:
            if was:
                # what is there is unknown
                f.close()
                return
        pos = len(data) if 'a' in mode else 0
        r = 'r' in mode or '+' in mode
        wr = mode != 'r'
        opened = mode

        def tell():
            if f.tell() != pos:
                raise Violation('tell', '%r (%s) is at %d, not %d' % (
                    spec, opened, f.tell(), pos))
        dirty = False
        for i in range(n):
            what = w.weighted((
                (4 if wr else 0, 'write'), (3 if r else 0, 'read'),
                (2 if 'a' not in mode else 0, 'seek'), (1, 'flush'),
                (1 if r else 0, 'readall'), (1, 'fail')))
            tell()
            if what == 'write':
                b = self.site.bytes(self.site.length())
                if w.chance(0.3):
                    b = w.pick((bytearray, memoryview))(b)
                if b and pos > len(data):
                    data += b'\x00' * (pos - len(data))
                    spec.exact = False
                if b and pos < len(data) or mode != 'w':
                    spec.exact = False
                at = 0
                left = 100
                while at < len(b) or not len(b):
                    # (may write less than asked; when it fails it may have
                    # written, and may be asked again)
                    try:
                        k = self.do('write', f.write, b[at:])
                    except Failed:
                        spec.exact = False
                        if not safe:
                            raise
                        left -= 1
                        if not left:
                            raise
                        w.probe('retried')
                        continue
                    if not len(b):
                        if k != 0:
                            raise Violation('count', 'nothing written '
                                            'returned %r' % k)
                        break
                    if not k or k < 0 or k > len(b) - at:
                        raise Violation('count', 'write of %d bytes '
                                        'returned %r' % (len(b) - at, k))
                    data[pos:pos + k] = b[at:at + k]
                    pos += k
                    at += k
                    dirty = True
                    if w.chance(0.1):
                        w.sleep(0.01)
            elif what == 'read':
                k = self.site.length()
                b = self.retry(safe, 'read', f.read, k)
                want = bytes(data[pos:pos + k])
                if not isinstance(b, bytes) or not want.startswith(b) or \
                        (want and not b):
                    raise Violation('read', '%r (%s) at %d: read(%d) '
                                    'returned %r, expected %r' % (
                                        spec, mode, pos, k, b, want))
                pos += len(b)
            elif what == 'readall':
                b = self.retry(safe, 'readall', f.readall)
                want = bytes(data[pos:])
                if (b or b'') != want:
                    if safe and want.endswith(b or b''):
                        # (the part read before a fault is lost)
                        pass
                    else:
                        raise Violation(
                            'read', '%r (%s) at %d: readall returned %r, '
                            'expected %r' % (spec, mode, pos, b, want))
                pos = max(pos, len(data))
            elif what == 'seek':
                whence = w.draw(3)
                base = (0, pos, len(data))[whence]
                top = len(data) + (2 * self.site.size if wr else 3)
                to = w.pick((0, len(data), w.between(0, top),
                             (pos // self.site.size) * self.site.size))
                spec.exact = spec.exact and not dirty
                k = self.retry(safe, 'seek', f.seek, to - base, whence)
                if k != to:
                    raise Violation('seek', 'seek(%d, %d) at %d of %d '
                                    'returned %r' % (to - base, whence, pos,
                                                     len(data), k))
                pos = to
            elif what == 'flush':
                self.retry(safe, 'flush', f.flush)
                spec.exact = spec.exact and not dirty
                if wr and not safe and w.chance(0.5):
                    self.check(spec)
            else:
                try:
                    if not r:
                        f.read(1)
                    elif not wr:
                        f.write(b'x')
                    else:
                        f.seek(-1)
                except (OSError, ValueError):
                    pass
                else:
                    raise Violation('refuse', '%r (%s) did not refuse' % (
                        spec, mode))
        tell()
        # flush first: RawIOBase.close closes whatever happens
        self.retry(safe, 'flush', f.flush)
        self.do('close', f.close)
        spec.hurt = was
        w.log('session', mode)

    def retry(self, safe, what, fn, *args):
        for i in range(100):
            try:
                return self.do(what, fn, *args)
            except Failed:
                if not safe:
                    raise
                self.w.probe('retried')
        raise Failed(what)

    def read_others(self, spec):
        """Someone else's stream, complete, and possibly being deleted."""
        w = self.w
        data = bytes(spec.data)
        try:
            st = self.ss.get_stream(spec.sid)
            f = self.ss.open_stream(st, 'r')
            got = f.readall()
        except Exception:
            if not (spec.hurt or spec.gone or self.site.errors()):
                raise Violation('lost', '%r can not be read' % spec)
            return
        if spec.hurt or spec.gone or data != spec.data:
            # (changed meanwhile)
            return
        if got != data:
            raise Violation('content', '%r reads back as %r, written was %r'
                            % (spec, got, data))
        w.log('others')


def simple(c, n):
    """Write and read whole streams, the intended use."""
    w = c.w

    def go():
        for i in range(n):
            what = w.weighted(((3, 'new'), (2, 'delete'), (2, 'rewrite'),
                               (2, 'others'), (1, 'edit')))
            try:
                if what == 'new' or not c.mine:
                    spec = c.new()
                    c.session(spec, 'w', w.between(1, 3))
                    c.check(spec)
                    continue
                spec = w.pick(c.mine)
                if what == 'delete':
                    c.delete(spec)
                elif what == 'rewrite':
                    c.session(spec, 'w', w.between(1, 3))
                    c.check(spec)
                elif what == 'edit':
                    c.session(spec, w.pick(('r+', 'a')), w.between(1, 4))
                    if not spec.hurt:
                        c.check(spec)
                else:
                    ready = [o for o in c.site.specs
                             if not o.hurt and not o.gone]
                    if ready:
                        c.read_others(w.pick(ready))
            except Failed:
                w.probe('failed')
            if w.chance(0.2):
                w.sleep(0.05)
    return go


def final(site, clean, patient=False):
    """A new process looks at everything, then deletes it."""
    w = site.w
    site.calm()
    if patient:
        w.sleep(200)
    site.process('last')

    def count(c, name):
        with c[name].open() as coll:
            return len(coll)

    def used(c):
        out = set()
        with c['BlockLists'].open() as coll:
            for e in coll.itervalues():
                out.add(e['hash'].value)
        return out

    def held(p):
        if site.fs is None:
            with p.c['Blocks'].open() as coll:
                return set(e['hash'].value for e in coll.itervalues())
        n = 0
        for d, dirs, files in os.walk(site.fs.root):
            n += len(files)
        return n

    def orphans(p):
        have, need = held(p), used(p.c)
        if isinstance(have, set):
            bad = have != need
        else:
            bad = have != len(need)
        if bad:
            raise Violation('orphans', '%s blocks are stored, %d are used'
                            % (have if isinstance(have, int) else
                               len(have), len(need)))

    def go():
        p = site.procs['last']
        c = Client(site, 'last')
        for spec in site.specs:
            if spec.gone:
                continue
            if not spec.hurt:
                c.check(spec)
        if clean:
            orphans(p)
            if count(p.c, 'Locks'):
                raise Violation('locks', '%d locks are left' % count(
                    p.c, 'Locks'))
        live = []
        for spec in site.specs:
            if spec.gone:
                continue
            try:
                p.ss.get_stream(spec.sid)
            except KeyError:
                if not spec.hurt:
                    raise Violation('lost', '%r is gone' % spec)
                spec.gone = True
                continue
            live.append(spec)
        c.mine = list(live)
        for spec in live:
            # writing it anew puts it right whatever happened to it
            if w.chance(0.4):
                c.session(spec, w.pick(('w', 'w+')), w.between(1, 3))
                c.check(spec)
        while c.mine:
            # deleting some leaves the others alone
            spec = w.pick(c.mine)
            c.delete(spec)
            for o in c.mine:
                if not o.hurt:
                    c.check(o)
        if count(p.c, 'BlockLists'):
            raise Violation('orphans', 'every stream is deleted and %d '
                            'entries are left in the block list' % count(
                                p.c, 'BlockLists'))
        if clean:
            orphans(p)
            if count(p.c, 'Locks'):
                raise Violation('locks', '%d locks are left' % count(
                    p.c, 'Locks'))
    w.join(w.spawn(go, 'last', group='last'))


def as_file(w, kind):
    """One client, every mode of opening."""
    site = Site(w, kind, w.chance(0.3))

    def go():
        c = Client(site, 'P0')
        for i in range(w.between(1, 6)):
            if not c.mine or w.chance(0.2):
                c.new()
            spec = w.pick(c.mine)
            mode = w.pick(('r', 'w', 'a', 'r+', 'w+', 'a+'))
            c.session(spec, mode, w.between(1, 8))
            if spec.exact and mode not in ('r', 'w'):
                spec.exact = False
            c.check(spec)
            if w.chance(0.1):
                c.delete(spec)
    w.join(w.spawn(go, 'P0', group='P0'))
    final(site, True)


def file_mem(w):
    as_file(w, 'mem')


def file_sql(w):
    as_file(w, 'sql')


def threads(site, np, nt, n, patient=False):
    w = site.w
    for p in range(np):
        for i in range(nt):
            c = Client(site, 'P%d' % p)
            c.patient = patient
            site.threads.append(w.spawn(simple(c, n), 'P%d-T%d' % (p, i),
                                        group='P%d' % p))


def share_mem(w):
    """Streams of several threads share their blocks."""
    w.randomize_sched(line_mean=(0, 20, 60, 300))
    site = Site(w, 'mem', w.chance(0.3))
    threads(site, 1, w.between(2, 4), w.between(2, 5))
    for t in site.threads:
        w.join(t)
    final(site, True)


def share_sql(w):
    """And threads of several processes."""
    w.randomize_sched(line_mean=(0, 0, 0, 200))
    np = w.between(1, 3)
    site = Site(w, 'sql', w.chance(0.4), np)
    threads(site, np, w.between(1, 2) if np > 1 else w.between(2, 3),
            w.between(2, 4))
    for t in site.threads:
        w.join(t)
    final(site, True)


def faults(w):
    """Statements, commits and file operations that fail."""
    w.randomize_sched(line_mean=(0, 0, 0, 200))
    files = w.chance(0.4)
    site = Site(w, 'sql', files)
    db = site.store.db
    p = w.pick((0.005, 0.03))
    for k in w.pick((('p_read',), ('p_write',), ('p_busy',), ('p_commit',),
                     ('p_unknown',), ('p_commit_busy',), ('p_full',),
                     ('p_read', 'p_write', 'p_commit', 'p_unknown'), ())):
        setattr(db, k, p)
    if files:
        site.fs.p_eio = w.pick((0.0, 0.02))
        site.fs.p_full = w.pick((0.0, 0.1))
        site.fs.p_short = w.pick((0.0, 0.3))
    threads(site, 1, w.between(1, 3), w.between(2, 4), True)
    for t in site.threads:
        w.join(t)
    final(site, False, True)


def retries(w):
    """A client that tries again what failed."""
    site = Site(w, 'sql', w.chance(0.4))
    db = site.store.db
    p = w.pick((0.01, 0.05))

    def go():
        c = Client(site, 'P0')
        # (a lock that could not be released is held for a while)
        c.patient = True
        c.new()
        for i in range(w.between(1, 3)):
            for k in ('p_read', 'p_write', 'p_busy', 'p_commit',
                      'p_commit_busy', 'p_full'):
                setattr(db, k, p if w.chance(0.4) else 0.0)
            if site.fs is not None:
                site.fs.p_eio = w.pick((0.0, 0.05))
                site.fs.p_full = w.pick((0.0, 0.1))
            spec = c.mine[0]
            try:
                c.session(spec, w.pick(('w', 'a', 'r+', 'w+')),
                          w.between(1, 5), True)
            except Failed:
                w.probe('gave-up')
            site.calm()
            w.sleep(200)
            if not spec.hurt:
                spec.exact = False
                c.check(spec)
    w.join(w.spawn(go, 'P0', group='P0'))
    final(site, False, True)


def crash(w):
    """Processes that die while they write, and others that do not."""
    w.randomize_sched(line_mean=(0, 0, 0, 200))
    np = w.between(1, 2)
    site = Site(w, 'sql', w.chance(0.5), np)
    db = site.store.db
    threads(site, np, w.between(1, 2), w.between(2, 4), True)
    seat = db

    def gone(group):
        for t in site.threads:
            if t.group == group and t is not w.current:
                w.kill_thread(t)
    db.on_crash = gone
    if site.fs is not None:
        def down(group):
            gone(group)
            db.forget(group)
        site.fs.on_crash = down
        if w.chance(0.5):
            seat = site.fs
    seat.crash_at = seat.count + 1 + w.draw(300)
    for t in site.threads:
        w.join(t)
    db.crash_at = None
    if site.fs is not None:
        site.fs.crash_at = None
    final(site, False, True)


CHECK = Check(
    'C13',
    [Scenario('file-mem', file_mem, quick=500),
     Scenario('file-sql', file_sql, quick=150),
     Scenario('share-mem', share_mem, quick=400),
     Scenario('share-sql', share_sql, quick=150),
     Scenario('faults', faults, quick=250),
     Scenario('retries', retries, quick=250),
     Scenario('crash', crash, quick=250)],
    rule='a stream equals the reference file after every operation and '
         'from a new process; nothing done to one stream changes another; '
         'without faults no block and no lock is left behind',
    real=['pyslet.blockstore StreamStore, BlockStream, LockStore, '
          'FileBlockStore and EDMBlockStore', 'pyslet.odata2.memds',
          'pyslet.odata2.sqlds on the sqlite3 library and a real file'],
    stub=['sqlite3.connect, open() and os calls pass through seams; '
          'processes are groups of threads with their own containers'],
    faults=['process-crash', 'sql-read-error', 'sql-write-error',
            'sql-write-busy', 'sql-disk-full', 'commit-error',
            'commit-busy', 'commit-unknown', 'disk-error', 'disk-full',
            'short-read', 'short-write'],
    line_files=['pyslet/blockstore.py', 'pyslet/odata2/memds.py',
                'pyslet/odata2/sqlds.py'],
    probes=['failed', 'retried'])
