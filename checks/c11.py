"""C11: a block store returns exactly the block stored under a key."""
import hashlib
import os

from sim.core import Violation
from sim.fs import FS
from sim.runner import Check, Scenario
from . import storelib as s


class Disk(object):

    """A directory of blocks, used by processes that come and go."""

    def __init__(self, w):
        self.w = w
        self.fs = FS(w, w.scratch())
        self.limit = w.pick((1, 40, 40, 256, 9000))
        self.hash_class = w.pick((hashlib.sha256, hashlib.md5))
        self.h = s.History(w, self.hash_class)
        self.blocks, self.big = s.make_blocks(w, self.h, self.limit)
        self.nproc = 0

    def open(self):
        return s.blockstore.FileBlockStore(
            dpath=s.OSFilePath(self.fs.root), max_block_size=self.limit,
            hash_class=self.hash_class)

    def errors(self):
        return self.fs.errors.get(self.w.current.name, 0)

    def process(self, nthreads, nops, tight):
        """Start a process; returns its threads."""
        w = self.w
        self.nproc += 1
        name = 'P%d' % self.nproc
        box = {}

        def worker(i):
            def go():
                while 'bs' not in box:
                    w.sleep(0.001)
                if box['bs'] is None:
                    return
                c = s.Client(self.h, box['bs'], self.errors)
                c.broken = box['broken']
                s.work(w, self.h, c, self.blocks, self.big, nops, tight)
            return go

        def start():
            before = self.errors()
            try:
                bs = self.open()
                box['broken'] = self.errors() > before
                box['bs'] = bs
            except OSError as e:
                if self.errors() == before:
                    raise Violation('open-failed', 'opening the store '
                                    'raised %r' % e)
                box['bs'] = None
        ts = [w.spawn(start, name + '-open', group=name)]
        for i in range(nthreads):
            ts.append(w.spawn(worker(i), '%s-T%d' % (name, i), group=name))
        return ts

    def epoch(self, crash, power):
        w = self.w
        tight = w.pick((0.0, 0.5, 1.0))
        ts = []
        for i in range(w.between(1, 3)):
            ts += self.process(w.between(1, 3), w.between(1, 5), tight)
        if crash:
            self.fs.crash_at = self.fs.count + 1 + w.draw(120)
            if power or w.chance(0.5):
                # the whole machine goes down
                def down(group):
                    for t in ts:
                        if t is not w.current:
                            w.kill_thread(t)
                self.fs.on_crash = down
            else:
                self.fs.on_crash = None
        for t in ts:
            w.join(t)
        crashed = crash and self.fs.crash_at is None
        self.fs.crash_at = None
        self.h.stop(())
        if crashed:
            w.probe('crashed')
            if power:
                if self.fs.power_loss():
                    w.probe('data-lost')
        return crashed

    def check(self, clean):
        """Look at every block from a new process."""
        w = self.w
        p = self.fs.p_eio, self.fs.p_full, self.fs.p_short
        self.fs.p_eio = self.fs.p_full = self.fs.p_short = 0.0

        def look():
            c = s.Client(self.h, self.open(), self.errors)
            present = 0
            for k in sorted(self.h.blocks):
                o = c.retrieve(k)
                present += isinstance(o.out, bytes)
            big = self.h.key(self.big)
            names = []
            for d, dirs, files in os.walk(self.fs.root):
                names += [os.path.join(d, f) for f in files]
            for n in names:
                if big[8:32] in n:
                    raise Violation('trace', 'a block that was refused left '
                                    'the file %s' % n[len(self.fs.root):])
            if clean and len(names) != present:
                raise Violation(
                    'leftover', '%d blocks are stored, and there are %d '
                    'files: %s' % (present, len(names), ', '.join(
                        n[len(self.fs.root):] for n in sorted(names))))
            # storing and deleting work again
            for d in self.blocks:
                c.store(d)
                o = c.retrieve(self.h.key(d))
                if o.out != bytes(d):
                    raise Violation('lost', '%r right after storing it' % o)
                if w.chance(0.5):
                    c.delete(self.h.key(d))
                    o = c.retrieve(self.h.key(d))
                    if o.out is not s.MISSING:
                        raise Violation('undeleted', '%r right after '
                                        'deleting it' % o)
        self.nproc += 1
        w.join(w.spawn(look, 'P%d-look' % self.nproc,
                       group='P%d' % self.nproc))
        self.fs.p_eio, self.fs.p_full, self.fs.p_short = p


def races(w):
    w.randomize_sched(line_mean=(0, 20, 100, 400))
    d = Disk(w)
    d.fs.p_short = w.pick((0.0, 0.3))
    for i in range(w.between(1, 2)):
        d.epoch(False, False)
        d.check(True)


def crashes(w):
    w.randomize_sched(line_mean=(0, 50, 200))
    d = Disk(w)
    power = w.chance(0.5)
    clean = True
    for i in range(w.between(1, 3)):
        if d.epoch(True, power):
            clean = False
        d.check(clean)


def faults(w):
    w.randomize_sched(line_mean=(0, 0, 200))
    d = Disk(w)
    k = w.draw(3)
    d.fs.p_short = w.pick((0.0, 0.3))
    d.fs.p_eio = (0.02, 0.0, 0.05)[k]
    d.fs.p_full = (0.0, 0.1, 0.3)[k]
    clean = True
    for i in range(w.between(1, 3)):
        if w.chance(0.3):
            d.epoch(True, w.chance(0.3))
        else:
            d.epoch(False, False)
        d.check(False)


class Service(Disk):

    """Blocks in an entity set."""

    def __init__(self, w):
        self.w = w
        self.limit = w.pick((1, 40, 40, 256, 9000))
        self.hash_class = w.pick((hashlib.sha256, hashlib.md5))
        self.h = s.History(w, self.hash_class)
        self.blocks, self.big = s.make_blocks(w, self.h, self.limit)
        self.nproc = 0
        self.c, self.mem = s.mem_container()

    def errors(self):
        return 0

    def open(self):
        return s.blockstore.EDMBlockStore(
            entity_set=self.c['Blocks'], max_block_size=self.limit,
            hash_class=self.hash_class)


def memory(w):
    w.randomize_sched(line_mean=(0, 20, 100, 400))
    d = Service(w)
    tight = w.pick((0.0, 0.5, 1.0))
    ts = []
    for i in range(w.between(1, 3)):
        ts += d.process(w.between(1, 3), w.between(1, 5), tight)
    for t in ts:
        w.join(t)

    c = s.Client(d.h, d.open(), d.errors)
    n = 0
    for k in sorted(d.h.blocks):
        n += isinstance(c.retrieve(k).out, bytes)
    with d.c['Blocks'].open() as blocks:
        if len(blocks) != n:
            raise Violation('leftover', '%d blocks are stored and the set '
                            'has %d entities' % (n, len(blocks)))


CHECK = Check(
    'C11',
    [Scenario('races', races, quick=1500),
     Scenario('crashes', crashes, quick=2500),
     Scenario('faults', faults, quick=1500),
     Scenario('memory', memory, quick=1200)],
    rule='a retrieved block hashes to its key; it is missing only if it was '
         'not stored, or deleted by an operation that may come last; every '
         'acknowledged block survives crashes and power loss',
    real=['pyslet.blockstore FileBlockStore and EDMBlockStore',
          'pyslet.vfs.OSFilePath', 'pyslet.odata2.memds',
          'the file system of the sandbox below a scratch directory'],
    stub=['open() and os calls pass through a seam that fails, cuts short '
          'and crashes; data not synced is cut at a power loss'],
    faults=['disk-error', 'disk-full', 'short-read', 'short-write',
            'process-crash', 'unsynced-data-lost'],
    line_files=['pyslet/blockstore.py', 'pyslet/odata2/memds.py'],
    probes=['crashed', 'data-lost'])
