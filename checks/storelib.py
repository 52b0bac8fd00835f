"""Block stores, lock stores and stream stores under the simulator."""
import hashlib

from sim.core import Violation
from . import edmlib        # first: it installs the seams

from pyslet import blockstore
from pyslet.odata2.memds import InMemoryEntityContainer
from pyslet.vfs import OSFilePath

MISSING = object()


METADATA = '''<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<edmx:Edmx Version="1.0"
    xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
    xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
  <edmx:DataServices m:DataServiceVersion="2.0">
    <Schema Namespace="Sim" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
      <EntityContainer Name="Store" m:IsDefaultEntityContainer="true">
        <EntitySet Name="Blocks" EntityType="Sim.Block"/>
        <EntitySet Name="Locks" EntityType="Sim.Lock"/>
        <EntitySet Name="Streams" EntityType="Sim.Stream"/>
        <EntitySet Name="BlockLists" EntityType="Sim.BlockList"/>
        <AssociationSet Name="StreamBlocks" Association="Sim.StreamBlocks">
          <End Role="Stream" EntitySet="Streams"/>
          <End Role="Block" EntitySet="BlockLists"/>
        </AssociationSet>
      </EntityContainer>
      <EntityType Name="Block">
        <Key><PropertyRef Name="hash"/></Key>
        <Property Name="hash" Type="Edm.String" Nullable="false"
            MaxLength="128" Unicode="false"/>
        <Property Name="data" Type="Edm.Binary" MaxLength="65536"
            Nullable="false"/>
      </EntityType>
      <EntityType Name="Lock">
        <Key><PropertyRef Name="hash"/></Key>
        <Property Name="hash" Type="Edm.String" Nullable="false"
            MaxLength="128" Unicode="false"/>
        <Property Name="owner" Type="Edm.String" Nullable="false"
            MaxLength="32" Unicode="false"/>
        <Property Name="created" Type="Edm.DateTime" Nullable="false"
            Precision="3" ConcurrencyMode="Fixed"/>
      </EntityType>
      <EntityType Name="Stream">
        <Key><PropertyRef Name="streamID"/></Key>
        <Property Name="streamID" Type="Edm.Int32" Nullable="false"/>
        <Property Name="mimetype" Type="Edm.String" Nullable="false"
            MaxLength="64" Unicode="false"/>
        <Property Name="created" Type="Edm.DateTime" Nullable="false"
            Precision="3"/>
        <Property Name="modified" Type="Edm.DateTime" Nullable="false"
            Precision="3"/>
        <Property Name="size" Type="Edm.Int64" Nullable="false"/>
        <Property Name="md5" Type="Edm.Binary" MaxLength="16"
            FixedLength="true"/>
        <NavigationProperty Name="Blocks" Relationship="Sim.StreamBlocks"
            FromRole="Stream" ToRole="Block"/>
      </EntityType>
      <EntityType Name="BlockList">
        <Key><PropertyRef Name="blockID"/></Key>
        <Property Name="blockID" Type="Edm.Int64" Nullable="false"/>
        <Property Name="num" Type="Edm.Int32" Nullable="false"/>
        <Property Name="hash" Type="Edm.String" Nullable="false"
            MaxLength="128" Unicode="false"/>
      </EntityType>
      <Association Name="StreamBlocks">
        <End Role="Stream" Type="Sim.Stream" Multiplicity="1"/>
        <End Role="Block" Type="Sim.BlockList" Multiplicity="*"/>
      </Association>
    </Schema>
  </edmx:DataServices>
</edmx:Edmx>'''


STORE = 'Sim.Store'


def doc_container():
    return edmlib.parse(METADATA, STORE)


def mem_container():
    doc, c = doc_container()
    return c, InMemoryEntityContainer(c)


class Op(object):

    __slots__ = ('kind', 'key', 'start', 'end', 'out', 'hurt', 'who')

    def __repr__(self):
        out = self.out
        if isinstance(out, bytes):
            out = '%d bytes' % len(out)
        elif out is MISSING:
            out = 'missing'
        return '%s %s %s [%s, %s] -> %s%s' % (
            self.who, self.kind, self.key[:8], self.start, self.end, out,
            ' (fault)' if self.hurt else '')


class History(object):

    """Intervals of block store operations and their outcomes."""

    def __init__(self, w, hash_class):
        self.w = w
        self.hash_class = hash_class
        self.ops = []
        self.n = 0
        self.blocks = {}

    def tick(self):
        self.n += 1
        return self.n

    def key(self, data):
        return self.hash_class(bytes(data)).hexdigest()

    def begin(self, kind, key):
        o = Op()
        o.kind = kind
        o.key = key
        o.start = self.tick()
        o.end = None
        o.out = None
        o.hurt = False
        o.who = self.w.current.name
        self.ops.append(o)
        return o

    def finish(self, o, out):
        o.end = self.tick()
        o.out = out
        self.w.log(o.kind, o.key[:4], out is MISSING or str(out)[:4])

    def stop(self, alive):
        """A process has ended: its operations are over."""
        for o in self.ops:
            if o.end is None and o.who not in alive:
                o.end = self.tick()
                o.out = 'crashed'

    def judge(self, o):
        """Check the outcome of a retrieve against the history."""
        stores = [s for s in self.ops if s.kind == 'store' and
                  s.key == o.key and s.start < o.end]
        deletes = [d for d in self.ops if d.kind == 'delete' and
                   d.key == o.key and d.start < o.end]
        if isinstance(o.out, bytes):
            if self.key(o.out) != o.key:
                want = self.blocks[o.key]
                raise Violation(
                    'wrong-data', '%r: the block has %d bytes, %d were '
                    'returned that do not hash to its key' % (
                        o, len(want), len(o.out)))
            if not stores:
                raise Violation('never-stored', '%r: the block was never '
                                'stored' % o)
            for d in deletes:
                if d.out == 'ok' and not d.hurt and d.end < o.start and \
                        not any(s.end is None or s.end > d.start
                                for s in stores):
                    raise Violation('undeleted', '%r: the block was deleted '
                                    'by %r and not stored since' % (o, d))
        elif o.out is MISSING:
            for s in stores:
                if s.out == 'ok' and s.end < o.start and \
                        not any(d.end is None or d.end > s.start
                                for d in deletes):
                    raise Violation('lost', '%r: the block was stored by '
                                    '%r and not deleted since' % (o, s))
        elif o.out != 'crashed' and not o.hurt:
            raise Violation('error', '%r raised although no fault was '
                            'injected' % o)


class Client(object):

    """Performs recorded operations on a block store."""

    def __init__(self, h, bs, errors):
        self.h = h
        self.bs = bs
        self.errors = errors        # faults met by this thread so far
        self.broken = False         # opening the store met a fault

    def _do(self, kind, key, fn):
        o = self.h.begin(kind, key)
        before = self.errors()
        try:
            out = fn()
        except blockstore.BlockMissing:
            out = MISSING
        except blockstore.BlockSize:
            out = 'size'
        except Exception as e:
            out = '%s: %s' % (type(e).__name__, e)
        o.hurt = self.broken or self.errors() > before
        self.h.finish(o, out)
        return o

    def store(self, data):
        key = self.h.key(data)
        big = len(data) > self.bs.max_block_size

        def go():
            k = self.bs.store(data)
            if k != key:
                raise Violation('wrong-key', 'store returned %r, the key of '
                                'the block is %r' % (k, key))
            return 'ok'
        o = self._do('store', key, go)
        if big:
            o.kind = 'refused'
            if o.out != 'size':
                raise Violation('size', 'a block of %d bytes, maximum %d: '
                                '%r' % (len(data), self.bs.max_block_size,
                                        o))
        elif o.out != 'ok' and not o.hurt:
            raise Violation('store-failed', '%r although no fault was '
                            'injected' % o)
        return o

    def retrieve(self, key):
        o = self._do('retrieve', key, lambda: self.bs.retrieve(key))
        self.h.judge(o)
        return o

    def delete(self, key):
        def go():
            self.bs.delete(key)
            return 'ok'
        o = self._do('delete', key, go)
        if o.out != 'ok' and not o.hurt:
            raise Violation('delete-failed', '%r although no fault was '
                            'injected' % o)
        return o


def make_blocks(w, h, limit):
    """A few blocks, one of them just over the limit."""
    blocks = []
    for i in range(w.between(1, 4)):
        n = min(limit, w.pick((0, 1, 7, limit - 1, limit,
                               w.between(0, limit))))
        data = (hashlib.sha256(b'%d' % w.draw(1000)).digest() *
                (n // 32 + 1))[:n]
        if w.chance(0.3):
            data = bytearray(data)
        blocks.append(data)
        h.blocks[h.key(data)] = bytes(data)
    big = b'B' * (limit + 1)
    h.blocks[h.key(big)] = big
    return blocks, big


def work(w, h, client, blocks, big, n, tight):
    for i in range(n):
        data = blocks[0] if w.chance(tight) else w.pick(blocks)
        what = w.weighted(((5, 'store'), (5, 'retrieve'), (2, 'delete'),
                           (1, 'big')))
        if what == 'store':
            client.store(data)
        elif what == 'retrieve':
            client.retrieve(h.key(data))
        elif what == 'delete':
            client.delete(h.key(data))
        else:
            client.store(big)
            client.retrieve(h.key(big))
        if w.chance(0.1):
            w.sleep(0.01)
