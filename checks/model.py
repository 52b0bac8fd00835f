"""A small data service, its reference model and a linearizability check.

The model knows what the CSDL API promises: keys are unique, both ends of
an association agree, their multiplicities hold, deleting an entity deletes
those that can not exist without it, and what fails changes nothing.
"""
import io

from sim.core import Violation

# name: properties other than the key
SETS = {
    'Teams': ('name',),
    'Players': ('name', 'rank'),
    'Tags': ('name',),
    'Badges': ('name',),
    'Orders': ('name', 'rank'),
    'Lines': ('name',),
    'Invoices': ('name',),
}
PLURAL = {n: n[:-1] for n in SETS}
DEFAULTS = {'name': None, 'rank': None}

# name, set A, multiplicity of A, navigation from A to B,
#       set B, multiplicity of B, navigation from B to A
ASSOCS = (
    ('TeamPlayers', 'Teams', '0..1', 'Players', 'Players', '*', 'Team'),
    ('PlayerTags', 'Players', '*', 'Tags', 'Tags', '*', 'Players'),
    ('PlayerBadge', 'Players', '0..1', 'Badge', 'Badges', '0..1', 'Player'),
    ('OrderLines', 'Orders', '1', 'Lines', 'Lines', '*', 'Order'),
    ('OrderInvoice', 'Orders', '1', 'Invoice', 'Invoices', '0..1', 'Order'),
)

# (set, navigation) -> (assoc, reverse)
NAVS = {}
for _a in ASSOCS:
    NAVS[_a[1], _a[3]] = (_a, False)
    NAVS[_a[4], _a[6]] = (_a, True)


def navs(name):
    return [n for (s, n) in NAVS if s == name]


def target(name, nav):
    a, rev = NAVS[name, nav]
    return a[1] if rev else a[4]


def mult(name, nav):
    """multiplicity at our end and at the other end"""
    a, rev = NAVS[name, nav]
    return (a[5], a[2]) if rev else (a[2], a[5])


def metadata(extra='', assocs=ASSOCS):
    out = ['''<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<edmx:Edmx Version="1.0"
    xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
    xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
  <edmx:DataServices m:DataServiceVersion="2.0">
    <Schema Namespace="Sim" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
      <EntityContainer Name="Box" m:IsDefaultEntityContainer="true">''']
    names = list(SETS) + ['Tickets', 'Files']
    for n in names:
        out.append('<EntitySet Name="%s" EntityType="Sim.%s"/>' % (
            n, n[:-1]))
    for a in assocs:
        out.append('<AssociationSet Name="%s" Association="Sim.%s">'
                   '<End Role="A" EntitySet="%s"/>'
                   '<End Role="B" EntitySet="%s"/></AssociationSet>' % (
                       a[0], a[0], a[1], a[4]))
    out.append('</EntityContainer>')
    for n in names:
        out.append('<EntityType Name="%s"%s><Key><PropertyRef Name="id"/>'
                   '</Key><Property Name="id" Type="Edm.%s" '
                   'Nullable="false"/>' % (
                       n[:-1], ' m:HasStream="true"' if n == 'Files' else '',
                       # there are just 256 automatic keys
                       'String" MaxLength="2" Unicode="false'
                       if n == 'Tickets' else 'Int32'))
        for p in SETS.get(n, ('name',)):
            out.append('<Property Name="%s" Type="Edm.%s" Nullable="true"'
                       '%s/>' % (p, 'Int32' if p == 'rank' else 'String',
                                 '' if p == 'rank' else
                                 ' MaxLength="40" Unicode="true"'))
        for nav in navs(n):
            a, rev = NAVS[n, nav]
            if a not in assocs:
                continue
            out.append('<NavigationProperty Name="%s" '
                       'Relationship="Sim.%s" FromRole="%s" ToRole="%s"/>' %
                       ((nav, a[0]) + (('B', 'A') if rev else ('A', 'B'))))
        out.append('</EntityType>')
    for a in assocs:
        out.append('<Association Name="%s">'
                   '<End Role="A" Type="Sim.%s" Multiplicity="%s"/>'
                   '<End Role="B" Type="Sim.%s" Multiplicity="%s"/>'
                   '</Association>' % (a[0], a[1][:-1], a[2],
                                       a[4][:-1], a[5]))
    out.append('</Schema></edmx:DataServices></edmx:Edmx>')
    return ''.join(out)


NAME = 'Sim.Box'


class Refused(Exception):
    pass


class New(object):

    """An entity to be made: by a deep insert, or as a parameter."""

    def __init__(self, name, key, vals, binds=()):
        self.name = name
        self.key = key          # None: automatic
        self.vals = vals        # {property: value}
        self.binds = binds      # ((nav, key or New), ...)

    def __repr__(self):
        return '%s(%s)%s%s' % (
            self.name, self.key, self.vals,
            ' with %r' % (self.binds,) if self.binds else '')


class State(object):

    """What is stored."""

    __slots__ = ('ents', 'links', 'streams', 'same')

    def __init__(self, ents=None, links=None, streams=None):
        self.ents = dict(ents or {})        # (set, key) -> values
        self.links = {a[0]: set((links or {}).get(a[0], ()))
                      for a in ASSOCS}      # {(key A, key B)}
        self.streams = dict(streams or {})  # key -> bytes
        # a link was to be made that is there: nothing to do or an error
        self.same = False

    def copy(self):
        return type(self)(self.ents, self.links, self.streams)

    def freeze(self):
        return (frozenset(self.ents.items()),
                tuple(frozenset(self.links[a[0]]) for a in ASSOCS),
                frozenset(self.streams.items()))

    # ------------------------------------------------------------ queries
    def linked(self, name, key, nav):
        a, rev = NAVS[name, nav]
        if rev:
            return frozenset(x for x, y in self.links[a[0]] if y == key)
        return frozenset(y for x, y in self.links[a[0]] if x == key)

    # ------------------------------------------------------------ changes
    def put(self, name, key, nav, tkey):
        a, rev = NAVS[name, nav]
        self.links[a[0]].add((tkey, key) if rev else (key, tkey))

    def cut(self, name, key, nav, tkey):
        a, rev = NAVS[name, nav]
        self.links[a[0]].discard((tkey, key) if rev else (key, tkey))

    def back(self, name, nav):
        a, rev = NAVS[name, nav]
        return (a[1], a[3]) if rev else (a[4], a[6])

    def free(self, name, key, nav, tkey):
        """The target can take another link from us."""
        if (name, key) not in self.ents:
            raise Refused('source')
        tname, tnav = self.back(name, nav)
        if (tname, tkey) not in self.ents:
            raise Refused('target')
        if mult(name, nav)[0] != '*' and self.linked(tname, tkey, tnav):
            raise Refused('target is linked')

    def link(self, name, key, nav, tkey):
        if (name, key) not in self.ents:
            raise Refused('source')
        now = self.linked(name, key, nav)
        if tkey in now:
            self.same = True
            return
        if mult(name, nav)[1] != '*' and now:
            raise Refused('linked')
        self.free(name, key, nav, tkey)
        self.put(name, key, nav, tkey)

    def unlink(self, name, key, nav, tkey):
        if '1' in mult(name, nav):
            raise Refused('required')
        if tkey not in self.linked(name, key, nav):
            raise Refused('no link')
        self.cut(name, key, nav, tkey)

    def replace(self, name, key, nav, tkey):
        if (name, key) not in self.ents:
            raise Refused('source')
        now = self.linked(name, key, nav)
        if now == {tkey}:
            self.same = True
            return
        if mult(name, nav)[0] == '1' and now:
            raise Refused('required')
        if tkey not in now:
            self.free(name, key, nav, tkey)
        for k in now:
            self.cut(name, key, nav, k)
        self.put(name, key, nav, tkey)

    def bind(self, name, key, binds):
        for nav, b in binds:
            if isinstance(b, New):
                tname, tnav = self.back(name, nav)
                self.insert(b, (tname, tnav))
                self.link(name, key, nav, b.key)
            elif mult(name, nav)[1] == '*':
                self.link(name, key, nav, b)
            else:
                self.replace(name, key, nav, b)

    def insert(self, new, done=None):
        if (new.name, new.key) in self.ents:
            raise Refused('key')
        bound = set(nav for nav, b in new.binds)
        for nav in navs(new.name):
            if mult(new.name, nav)[1] == '1' and nav not in bound and \
                    done != (new.name, nav):
                raise Refused('required')
        self.ents[new.name, new.key] = tuple(
            new.vals.get(p, DEFAULTS[p]) for p in
            SETS.get(new.name, ('name',)))
        self.bind(new.name, new.key, new.binds)

    def delete(self, name, key):
        if (name, key) not in self.ents:
            raise Refused('gone')
        for nav in navs(name):
            tname, tnav = self.back(name, nav)
            for t in self.linked(name, key, nav):
                self.cut(name, key, nav, t)
                if mult(name, nav)[0] == '1':
                    self.delete(tname, t)
        del self.ents[name, key]
        if name == 'Files':
            self.streams.pop(key, None)

    def update(self, name, key, vals, merge, binds):
        old = self.ents.get((name, key))
        if old is None:
            raise Refused('gone')
        props = SETS.get(name, ('name',))
        self.ents[name, key] = tuple(
            vals[p] if p in vals else (old[i] if merge else DEFAULTS[p])
            for i, p in enumerate(props))
        self.bind(name, key, binds)

    # ------------------------------------------------------------ operations
    def step(self, op):
        """True if op can have had its result in this state, which becomes
        the one after it.  (A failed operation leaves it as it was.)"""
        kind, args, res = op.kind, op.args, op.res
        if kind in READERS:
            return READERS[kind](self, args, res)
        if res == 'fail':
            if kind == 'nav-insert' and (args[0], args[1]) not in self.ents:
                return True
            s = self.copy()
            try:
                s.change(op)
            except Refused:
                return True
            return s.same
        try:
            self.change(op)
        except Refused:
            return False
        self.same = False
        return True

    def change(self, op):
        kind, args = op.kind, op.args
        if kind == 'insert':
            self.insert(self.keyed(args[0], op.res))
        elif kind == 'nav-insert':
            name, key, nav, new = args
            if (name, key) not in self.ents:
                raise Refused('source')
            tname, tnav = self.back(name, nav)
            new = self.keyed(new, op.res)
            self.insert(new, (tname, tnav))
            self.link(name, key, nav, new.key)
        elif kind == 'update':
            self.update(*args)
        elif kind == 'delete':
            self.delete(*args)
        elif kind == 'link':
            self.link(*args)
        elif kind == 'unlink':
            self.unlink(*args)
        elif kind == 'replace':
            self.replace(*args)
        elif kind == 'new-stream':
            key = args[0]
            if op.res != 'fail':
                key = op.res[1]
            if key is None:
                # would have found one
                return
            new = New('Files', key, {})
            self.insert(new)
            self.streams[key] = args[1]
        elif kind == 'put-stream':
            if ('Files', args[0]) not in self.ents:
                raise Refused('gone')
            self.streams[args[0]] = args[1]
        else:
            raise ValueError(kind)

    def keyed(self, new, res):
        """The entity with its automatic key."""
        if new.key is not None:
            return new
        if res == 'fail':
            # would have found one (the only other reason to fail)
            used = set(k for n, k in self.ents if n == new.name)
            k = 0
            while k in used:
                k += 1
            if new.name == 'Tickets' and len(used) > 200:
                # it may not have found one of the few that are left
                raise Refused('no key')
            return New(new.name, k, new.vals, new.binds)
        return New(new.name, res[1], new.vals, new.binds)

    def dump(self):
        out = {}
        for (name, key), v in self.ents.items():
            out[name, key] = (v,) + tuple(
                self.linked(name, key, nav) for nav in navs(name)) + (
                    (self.streams.get(key, b''),) if name == 'Files' else ())
        return out


def _read(s, args, res):
    v = s.ents.get((args[0], args[1]))
    return v == res if res != 'fail' else v is None


def _nav(s, args, res):
    if (args[0], args[1]) not in s.ents:
        return res in ('fail', frozenset())
    return res == s.linked(*args)


def _nav_has(s, args, res):
    """Is the target linked, and what are its values?"""
    name, key, nav, tkey = args
    if tkey not in s.linked(name, key, nav):
        return res == 'fail'
    return res == s.ents[target(name, nav), tkey]


def _count(s, args, res):
    return res == sum(1 for n, k in s.ents if n == args[0])


def _stream(s, args, res):
    if ('Files', args[0]) not in s.ents:
        return res == 'fail'
    return res == s.streams.get(args[0], b'')


def _dump(s, args, res):
    return res == s.dump()


READERS = {'read': _read, 'nav': _nav, 'nav-has': _nav_has,
           'count': _count, 'get-stream': _stream, 'dump': _dump}


class Op(object):

    __slots__ = ('kind', 'args', 'start', 'end', 'res', 'who', 'error')

    def __repr__(self):
        return '%s: %s%r [%s, %s] -> %s%s' % (
            self.who, self.kind, self.args, self.start,
            '' if self.end is None else self.end, self.res,
            ' (%s)' % self.error if self.error else '')


class History(object):

    def __init__(self, w):
        self.w = w
        self.ops = []
        self.n = 0

    def begin(self, kind, args):
        o = Op()
        o.kind, o.args = kind, args
        self.n += 1
        o.start = self.n
        o.end = None
        o.res = None
        o.error = None
        o.who = self.w.current.name
        self.ops.append(o)
        return o

    def finish(self, o, res):
        self.n += 1
        o.end = self.n
        o.res = res
        self.w.log(o.kind, o.args[0] if isinstance(o.args[0], str) else '',
                   'fail' if res == 'fail' else 'ok')

    def later(self, o, kind, args, res):
        """Another operation in the interval of o."""
        p = Op()
        p.kind, p.args, p.res = kind, args, res
        p.start, p.end, p.who = o.start, o.end, o.who
        p.error = None
        self.ops.append(p)


LIMIT = 60000


def linearizable(ops, state, maybe=()):
    """Look for an order of ops (Wing and Gong), where those in maybe may
    have been carried out at any time or not at all.

    Returns (True, final state), (False, longest) or (None, None) if it
    would take too long."""
    ops = sorted(ops, key=lambda o: o.start)
    n = len(ops)
    inf = float('inf')
    ends = [inf if o.end is None else o.end for o in ops]
    lazy = [o in maybe for o in ops]
    seen = set()
    best = []
    stack = [(frozenset(), state, ())]
    must = frozenset(i for i in range(n) if not lazy[i])
    steps = 0
    while stack:
        done, s, path = stack.pop()
        if must <= done:
            return True, s
        if len(path) > len(best):
            best = path
        todo = [i for i in range(n) if i not in done]
        first = min([ends[i] for i in todo if not lazy[i]] or [inf])
        for i in reversed(todo):
            o = ops[i]
            if o.start > first:
                continue
            steps += 1
            if steps > LIMIT:
                return None, None
            t = s.copy()
            if not t.step(o):
                continue
            d = done | {i}
            f = (d, t.freeze())
            if f in seen:
                continue
            seen.add(f)
            stack.append((d, t, path + (i,)))
    return False, [ops[i] for i in best]


def check(w, ops, state, maybe=()):
    ok, what = linearizable(ops, state, maybe)
    if ok is None:
        w.probe('not-decided')
        return None
    if ok:
        return what
    rest = [o for o in ops if o not in what]
    raise Violation(
        'not-linearizable', 'no order of the operations explains their '
        'results; the longest one is: %s; it can not be continued with any '
        'of: %s' % ('; '.join(map(repr, what)) or '(none)',
                    '; '.join(map(repr, sorted(
                        rest, key=lambda o: o.start)))))


class Source(object):

    """A stream that is read in pieces and may fail."""

    def __init__(self, w, data, fail=None):
        self.w = w
        self.data = data
        self.pos = 0
        self.fail = fail

    def read(self, n=-1):
        self.w.yield_point('src')
        if self.fail is not None and self.pos >= self.fail:
            self.w.count_fault('source-fails')
            raise IOError('simulated')
        left = self.data[self.pos:]
        if n is not None and n >= 0:
            left = left[:n]
        elif self.fail is not None:
            left = left[:max(1, self.fail - self.pos)]
        if len(left) > 1 and self.w.chance(0.3):
            left = left[:self.w.between(1, len(left))]
        self.pos += len(left)
        return left


class Sink(object):

    def __init__(self, w):
        self.w = w
        self.data = b''

    def write(self, b):
        self.w.yield_point('sink')
        if len(b) > 1 and self.w.chance(0.3):
            b = b[:self.w.between(1, len(b))]
        self.data += bytes(b)
        return len(b)


class Client(object):

    """Carries out operations on a container and records them."""

    def __init__(self, h, c, streams=True):
        self.h = h
        self.w = h.w
        self.c = c
        self.streams = streams

    def do(self, kind, *args):
        o = self.h.begin(kind, args)
        fn = getattr(self, 'do_' + kind.replace('-', '_'))
        try:
            res = fn(o, *args)
        except Exception as e:
            o.error = '%s: %s' % (type(e).__name__, e)
            self.failed(o, e)
            res = 'fail'
        self.h.finish(o, res)
        if kind == 'scan':
            self.h.ops.remove(o)
        return o

    def failed(self, o, e):
        """Is it an error an operation may raise?"""
        from pyslet.odata2 import csdl
        if isinstance(e, (KeyError, csdl.EDMError)):
            return
        if isinstance(e, IOError) and str(e) == 'simulated':
            # nothing was done
            return
        raise Violation('error', '%r raised %s: %s' % (
            o, type(e).__name__, e))

    # -------------------------------------------------------------- pieces
    def make(self, coll, new):
        e = coll.new_entity()
        if new.key is not None:
            e.set_key(new.key)
        for p, v in new.vals.items():
            e[p].set_from_value(v)
        self.bind(e, new.binds)
        return e

    def bind(self, e, binds):
        for nav, b in binds:
            if isinstance(b, New):
                with e[nav].target().open() as coll:
                    b = self.make(coll, b)
            elif self.w.chance(0.3):
                # the entity itself
                with e[nav].target().open() as coll:
                    b = coll[b]
            e[nav].bind_entity(b)

    def get(self, name, key):
        with self.c[name].open() as coll:
            return coll[key]

    # ---------------------------------------------------------- operations
    def do_insert(self, o, new):
        with self.c[new.name].open() as coll:
            e = self.make(coll, new)
            try:
                coll.insert_entity(e)
            except Exception:
                if e.exists:
                    raise Violation('exists', '%r failed and the entity '
                                    'claims to exist' % o)
                raise
            if not e.exists:
                raise Violation('exists', '%r succeeded and the entity '
                                'claims not to exist' % o)
            return ('key', e.key())

    def do_nav_insert(self, o, name, key, nav, new):
        with self.get(name, key)[nav].open() as coll:
            e = self.make(coll, new)
            coll.insert_entity(e)
            return ('key', e.key())

    def do_update(self, o, name, key, vals, merge, binds):
        with self.c[name].open() as coll:
            if len(vals) < len(SETS.get(name, ('name',))):
                coll.set_expand(None, dict.fromkeys(vals))
            e = coll[key]
            for p, v in vals.items():
                e[p].set_from_value(v)
            self.bind(e, binds)
            if merge and self.w.chance(0.3):
                e.commit()
            else:
                coll.update_entity(e, merge)
        return 'ok'

    def do_delete(self, o, name, key):
        if self.w.chance(0.3):
            e = self.get(name, key)
            e.delete()
        else:
            with self.c[name].open() as coll:
                del coll[key]
        return 'ok'

    def do_link(self, o, name, key, nav, tkey):
        e = self.get(name, key)
        t = self.get(target(name, nav), tkey)
        with e[nav].open() as coll:
            coll[tkey] = t
        return 'ok'

    def do_unlink(self, o, name, key, nav, tkey):
        with self.get(name, key)[nav].open() as coll:
            del coll[tkey]
        return 'ok'

    def do_replace(self, o, name, key, nav, tkey):
        e = self.get(name, key)
        t = self.get(target(name, nav), tkey)
        with e[nav].open() as coll:
            coll.replace(t)
        return 'ok'

    def vals(self, name, e):
        return tuple(e[p].value for p in SETS.get(name, ('name',)))

    def do_read(self, o, name, key):
        return self.vals(name, self.get(name, key))

    def do_nav(self, o, name, key, nav):
        e = self.get(name, key)
        if mult(name, nav)[1] != '*' and self.w.chance(0.5):
            t = e[nav].get_entity()
            return frozenset(() if t is None else (t.key(),))
        with e[nav].open() as coll:
            keys = [t.key() for t in coll.itervalues()]
        if len(keys) != len(set(keys)):
            raise Violation('twice', '%r returned %r' % (o, keys))
        return frozenset(keys)

    def do_nav_has(self, o, name, key, nav, tkey):
        with self.get(name, key)[nav].open() as coll:
            return self.vals(target(name, nav), coll[tkey])

    def do_count(self, o, name):
        with self.c[name].open() as coll:
            return len(coll)

    def do_scan(self, o, name, keys):
        """Everything in a set; every entity is read on its own."""
        out = {}
        with self.c[name].open() as coll:
            for e in coll.itervalues():
                k = e.key()
                if k in out:
                    raise Violation('twice', '%r returned %r twice' % (o, k))
                out[k] = self.vals(name, e)
        self.h.n += 1
        o.end = self.h.n
        for k in sorted(set(keys) | set(out)):
            self.h.later(o, 'read', (name, k), out.get(k, 'fail'))
        return 'ok'

    def do_new_stream(self, o, key, data, fail=None):
        with self.c['Files'].open() as coll:
            e = coll.new_stream(Source(self.w, data, fail), key=key)
            return ('key', e.key())

    def do_put_stream(self, o, key, data, fail=None):
        with self.c['Files'].open() as coll:
            coll.update_stream(Source(self.w, data, fail), key)
        return 'ok'

    def do_get_stream(self, o, key):
        import hashlib
        if self.w.chance(0.5):
            out = Sink(self.w)
            with self.c['Files'].open() as coll:
                info = coll.read_stream(key, out)
            data = out.data
        else:
            coll = self.c['Files'].open()
            try:
                info, gen = coll.read_stream_close(key)
            except Exception:
                coll.close()
                raise
            data = b''.join(gen)
        if info.size is not None and info.size != len(data):
            raise Violation('size', '%r: %d bytes of a stream of size %d' % (
                o, len(data), info.size))
        if info.md5 is not None and \
                info.md5 != hashlib.md5(data).digest():
            raise Violation('md5', '%r: wrong md5' % o)
        return data

    def do_dump(self, o, *names):
        out = {}
        for name in names:
            with self.c[name].open() as coll:
                es = list(coll.itervalues())
            for e in es:
                row = [self.vals(name, e)]
                for nav in navs(name):
                    with e[nav].open() as coll:
                        row.append(frozenset(
                            t.key() for t in coll.itervalues()))
                        if len(coll) != len(row[-1]):
                            raise Violation('len', '%s(%s).%s: len is %d, '
                                            'has %r' % (
                                                name, e.key(), nav,
                                                len(coll), row[-1]))
                if name == 'Files':
                    out2 = io.BytesIO()
                    with self.c[name].open() as coll:
                        coll.read_stream(e.key(), out2)
                    row.append(out2.getvalue())
                out[name, e.key()] = tuple(row)
        return out


ALL = tuple(SETS) + ('Files', 'Tickets')
KEYS = (1, 2, 3)


class Generator(object):

    """Draws operations on a few entities."""

    def __init__(self, w, groups=None, streams=True, keys=KEYS, wide=True):
        self.w = w
        self.keys = keys
        groups = groups or w.pick((
            ('Teams', 'Players'), ('Players', 'Tags'),
            ('Players', 'Badges'), ('Orders', 'Lines', 'Invoices'),
            ('Orders', 'Lines'), ('Orders', 'Invoices'),
            tuple(SETS), ('Tickets',)) + (
                (('Files',), ('Files',)) if streams else ()))
        self.names = groups
        self.auto = 0.2         # chance of an automatic key
        self.n = 0

    def value(self, p):
        self.n += 1
        w = self.w
        if w.chance(0.1):
            return None
        return w.between(0, 9) if p == 'rank' else \
            w.pick('abc') + str(self.n)

    def vals(self, name, full):
        props = SETS.get(name, ('name',))
        if full:
            return {p: self.value(p) for p in props}
        p = self.w.pick(props)
        return {p: self.value(p)}

    def key(self, name=None):
        key = self.w.pick(self.keys)
        return '%02X' % key if name == 'Tickets' else key

    def navs(self, name):
        return [n for n in navs(name) if target(name, n) in self.names]

    def new(self, name, depth=0, skip=None, nested=False):
        w = self.w
        # (nobody learns the automatic key of a nested entity)
        key = None if not nested and self.auto and w.chance(self.auto) \
            else self.key(name)
        binds = []
        for nav in self.navs(name):
            a, rev = NAVS[name, nav]
            if skip == a[0]:
                continue
            need = mult(name, nav)[1] == '1'
            if not w.chance(0.9 if need else 0.25):
                continue
            if depth < 1 and w.chance(0.3):
                binds.append((nav, self.new(target(name, nav), depth + 1,
                                            a[0], True)))
            else:
                binds.append((nav, self.key()))
        return New(name, key, self.vals(name, w.chance(0.7)), tuple(binds))

    def data(self):
        return b'%d:' % self.w.draw(1000) + b'x' * self.w.pick((0, 1, 30))

    def op(self):
        w = self.w
        name = w.pick(self.names)
        if name == 'Files':
            kind = w.weighted(((3, 'new-stream'), (4, 'put-stream'),
                               (4, 'get-stream'), (2, 'delete'),
                               (1, 'count'), (1, 'read')))
            if kind == 'new-stream':
                return kind, w.pick(self.keys + (None,)), self.data()
            if kind == 'put-stream':
                return kind, self.key(), self.data()
            if kind == 'get-stream':
                return kind, self.key()
        elif name == 'Tickets':
            kind = w.weighted(((6, 'insert'), (1, 'delete'), (1, 'count'),
                               (1, 'read'), (1, 'update')))
            if kind == 'insert':
                return kind, New(name, None if w.chance(0.8) else
                                 self.key(name), self.vals(name, True))
        else:
            kind = w.weighted((
                (5, 'insert'), (4, 'delete'), (3, 'update'), (2, 'read'),
                (1, 'count'), (1, 'scan'), (4, 'link'), (2, 'unlink'),
                (2, 'replace'), (2, 'nav-insert'), (3, 'nav'),
                (1, 'nav-has')))
        ns = self.navs(name)
        if kind == 'insert':
            return kind, self.new(name)
        if kind == 'count':
            return kind, name
        if kind == 'scan':
            return kind, name, self.keys
        if kind in ('delete', 'read'):
            return kind, name, self.key(name)
        if kind == 'update':
            full = w.chance(0.5)
            binds = []
            for nav in ns:
                if w.chance(0.15):
                    binds.append((nav, self.key()))
            return (kind, name, self.key(name), self.vals(name, full),
                    full or w.chance(0.6), tuple(binds))
        if not ns:
            return 'read', name, self.key()
        nav = w.pick(ns)
        if kind == 'nav':
            return kind, name, self.key(), nav
        if kind == 'nav-insert':
            a, rev = NAVS[name, nav]
            return (kind, name, self.key(), nav,
                    self.new(target(name, nav), 1, a[0]))
        return kind, name, self.key(), nav, self.key()
