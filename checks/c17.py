"""C17: optimistic concurrency never loses an update."""
import copy
import sqlite3

from sim.core import Violation
from sim.runner import Check, Scenario
from . import edmlib, model

from pyslet.odata2 import csdl
from pyslet.odata2.sqlds import SQLError

# entity sets by the type of their tokens
KINDS = {
    'Ints': ('Int32', ''),
    'Longs': ('Int64', ''),
    'Guids': ('Guid', ''),
    'Times': ('DateTime', ' Precision="0"'),
    'Zones': ('DateTimeOffset', ' Precision="0"'),
    'Hashes': ('Binary', ' MaxLength="32"'),
    'Shorts': ('Binary', ' MaxLength="8" FixedLength="true"'),
    'Texts': ('String', ' MaxLength="64" Unicode="true"'),
}
# the token tells the data apart, not how often they changed
BY_VALUE = ('Hashes', 'Shorts', 'Texts')
FIELDS = ('a', 'b', 'n')


def metadata():
    out = ['''<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<edmx:Edmx Version="1.0"
    xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
    xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
  <edmx:DataServices m:DataServiceVersion="2.0">
    <Schema Namespace="Sim" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
      <EntityContainer Name="Box" m:IsDefaultEntityContainer="true">''']
    for n in KINDS:
        out.append('<EntitySet Name="%s" EntityType="Sim.%s"/>' % (n, n[:-1]))
    out.append('</EntityContainer>')
    for n, (t, facets) in KINDS.items():
        out.append('''<EntityType Name="%s"><Key><PropertyRef Name="id"/></Key>
<Property Name="id" Type="Edm.Int32" Nullable="false"/>
<Property Name="a" Type="Edm.String" Nullable="true" MaxLength="40" Unicode="true"/>
<Property Name="b" Type="Edm.String" Nullable="true" MaxLength="40" Unicode="true"/>
<Property Name="n" Type="Edm.Int32" Nullable="true"/>
<Property Name="v" Type="Edm.%s" Nullable="true"%s ConcurrencyMode="Fixed"/>
</EntityType>''' % (n[:-1], t, facets))
    out.append('</Schema></edmx:DataServices></edmx:Edmx>')
    return ''.join(out)


class State(object):

    """The entities and what the clients' copies are based on."""

    def __init__(self):
        self.ents = {}      # (set, key): [version, data, token or ANY]
        self.copies = {}    # copy: [version, data at that version, data]

    def copy(self):
        s = State()
        s.ents = {k: copy.copy(v) for k, v in self.ents.items()}
        s.copies = dict(self.copies)
        return s

    def freeze(self):
        return (tuple(sorted((k, v[0], v[1]) for k, v in self.ents.items())),
                tuple(sorted((k, v[0]) for k, v in self.copies.items())))

    def step(self, o):
        return getattr(self, 'do_' + o.kind)(o.res, *o.args)

    def do_insert(self, res, name, key, c, data):
        ent = self.ents.get((name, key))
        if res == 'fail':
            return True
        if res == 'exists':
            return ent is not None
        if ent is not None:
            return False
        self.ents[name, key] = [1, data, res[1]]
        self.copies[c] = (1, data, data)
        return True

    def do_read(self, res, name, key, c, sel):
        ent = self.ents.get((name, key))
        if res == 'fail':
            return True
        if res == 'none' or ent is None or ent[0] < 0:
            return res == 'none' and (ent is None or ent[0] < 0)
        data, token = res
        mine = tuple(x if f in sel else None for f, x in zip(FIELDS, ent[1]))
        if data != mine:
            return False
        if 'v' in sel:
            if ent[2] == 'any':
                ent[2] = token
            elif ent[2] != token:
                return False
        self.copies[c] = (ent[0], ent[1], data)
        return True

    def do_update(self, res, name, key, c, sel, changes, merge):
        ent = self.ents.get((name, key))
        if c not in self.copies:
            return False
        version, base, data = self.copies[c]
        data = tuple(changes.get(f, x) for f, x in zip(FIELDS, data))
        self.copies[c] = (version, base, data)
        if res == 'fail':
            return True
        if res == 'none':
            return ent is None or ent[0] < 0
        if ent is None or ent[0] < 0:
            return False
        if 'v' in sel:
            if res == 'conflict':
                return version != ent[0]
            if version != ent[0] and not (
                    name in BY_VALUE and base == ent[1]):
                return False
        elif res == 'conflict':
            return False
        after = tuple(x if f in sel else (y if merge else None)
                      for f, x, y in zip(FIELDS, data, ent[1]))
        self.ents[name, key] = [ent[0] + 1, after,
                                res[1] if 'v' in sel else 'any']
        # a copy without the token is based on nothing
        self.copies[c] = (ent[0] + 1, after, data)
        return True

    def do_delete(self, res, name, key):
        ent = self.ents.get((name, key))
        if res == 'fail':
            return True
        if res == 'none':
            return ent is None or ent[0] < 0
        if ent is None or ent[0] < 0:
            return False
        # (and may not be used again)
        self.ents[name, key] = [-1, None, None]
        return True


class Client(object):

    """Reads, changes and writes back."""

    def __init__(self, site, c, me):
        self.site = site
        self.w = site.w
        self.c = c
        self.me = me
        self.copies = []        # [id, set, key, selection, entity]
        self.n = 0

    def do(self, kind, fn, *args):
        site = self.site
        o = site.h.begin(kind, args)
        before = site.errors()
        try:
            res = fn()
        except csdl.ConcurrencyError as e:
            o.error = str(e)
            res = 'conflict'
            self.w.probe('conflict')
        except KeyError as e:
            o.error = repr(e)
            res = 'none'
        except csdl.ConstraintError as e:
            o.error = str(e)
            res = 'exists'
        except SQLError as e:
            o.error = str(e)
            if site.errors() == before and 'locked' not in str(e):
                if kind == 'insert' and 'UNIQUE' in str(e):
                    res = 'exists'
                else:
                    raise Violation('error', '%r raised %r' % (o, e))
            else:
                res = 'fail'
                self.w.probe('failed')
        except sqlite3.Error as e:
            o.error = str(e)
            if site.errors() == before:
                raise Violation('error', '%r raised %r' % (o, e))
            res = 'fail'
        site.h.finish(o, res)
        return res

    def token(self, e):
        return to_plain(e['v'].value)

    def data(self, e, sel):
        return tuple(e[f].value if f in sel else None for f in FIELDS)

    def new_copy(self):
        self.n += 1
        return '%s-%d' % (self.me, self.n)

    def values(self, name, sel):
        w = self.w
        fields = [f for f in FIELDS if f in sel]
        if not fields:
            return {}
        if name in BY_VALUE or self.site.few:
            # a few, that look alike in a row (and come again)
            pool = {'a': (None, '', 'x', 'xx', '1', 'x1'),
                    'b': (None, '', 'x', 'xx', '1', '1x'),
                    'n': (None, 1, 11)}
            return {f: w.pick(pool[f]) for f in fields if w.chance(0.6)}
        self.n += 1
        out = {}
        for f in fields:
            if w.chance(0.7) or f == fields[0]:
                out[f] = (sum(ord(x) * 1000 ** i for i, x in
                              enumerate(self.me[-2:])) + self.n
                          if f == 'n' else '%s.%d' % (self.me, self.n))
        return out

    def insert(self, name, key):
        sel = FIELDS + ('v',)
        vals = self.values(name, sel)
        c = self.new_copy()
        with self.c[name].open() as coll:
            e = coll.new_entity()
            e['id'].set_from_value(key)
            for f in FIELDS:
                e[f].set_from_value(vals.get(f))

            def fn():
                coll.insert_entity(e)
                return ('ok', self.token(e))
            res = self.do('insert', fn, name, key, c,
                          tuple(vals.get(f) for f in FIELDS))
            if type(res) is tuple:
                self.copies.append([c, name, key, sel, e])
            elif res == 'fail':
                self.site.claimed.remove((name, key))

    def read(self, name, key, sel):
        c = self.new_copy()
        got = []

        def fn():
            with self.c[name].open() as coll:
                if sel != FIELDS + ('v',):
                    coll.set_expand(None, {f: None for f in sel})
                e = coll[key]
            got.append(e)
            return (self.data(e, sel),
                    self.token(e) if 'v' in sel else None)
        if type(self.do('read', fn, name, key, c, sel)) is tuple:
            self.copies.append([c, name, key, sel, got[0]])

    def update(self, x):
        c, name, key, sel, e = x
        changes = self.values(name, sel)
        merge = True
        if sel == FIELDS + ('v',):
            merge = self.w.chance(0.7)
        for f, v in changes.items():
            e[f].set_from_value(v)
        old = self.token(e)

        def fn():
            with self.c[name].open() as coll:
                coll.update_entity(e, merge)
            return ('ok', self.token(e) if 'v' in sel else None)
        res = self.do('update', fn, name, key, c, sel, changes, merge)
        if type(res) is not tuple and 'v' in sel and self.token(e) != old:
            raise Violation('token', 'the token changed from %r to %r '
                            'although the update failed' % (
                                old, self.token(e)))

    def delete(self, name, key):
        def fn():
            with self.c[name].open() as coll:
                del coll[key]
            return 'ok'
        self.do('delete', fn, name, key)

    def run(self, n, quiet):
        w = self.w
        for i in range(n):
            name = w.pick(self.site.names)
            key = w.pick(self.site.keys)
            what = w.weighted(((4, 'read'), (6 if self.copies else 0,
                                             'update'),
                               (2, 'insert'), (0.3, 'delete')))
            if what == 'insert' and (name, key) not in self.site.claimed:
                self.site.claimed.add((name, key))
                self.insert(name, key)
            elif what == 'delete':
                # (a key is not used again)
                self.delete(name, key)
            elif what in ('read', 'insert'):
                sel = FIELDS + ('v',)
                if w.chance(self.site.p_partial):
                    sel = w.pick((('a',), ('b', 'n'), ('a', 'v'), ('v',),
                                  ('b', 'v')))
                self.read(name, key, sel)
            elif what == 'update':
                self.update(w.pick(self.copies[-3:]))
            if w.chance(quiet):
                w.sleep(w.pick((0.0, 0.4, 1.0, 1.6)))


def to_plain(v):
    if v is None or isinstance(v, (int, bytes, str)):
        return v
    return str(v)


class Site(object):

    p_partial = 0.0

    def __init__(self, w, kind, nproc=1, **kw):
        self.w = w
        self.h = model.History(w)
        self.state = State()
        self.claimed = set()
        if kind == 'mem':
            self.store = edmlib.Mem(w, metadata(), model.NAME)
            self.db = None
        else:
            self.store = edmlib.Sql(w, metadata(), model.NAME)
            self.db = self.store.db
        w.quiet += 1
        try:
            self.procs = [self.store.open(**kw) for i in range(nproc)]
        finally:
            w.quiet -= 1
        self.names = w.pick([(n,) for n in KINDS] + [('Ints', 'Times')])
        self.keys = w.pick(((1,), (1, 2)))
        self.few = w.chance(0.5)

    def errors(self):
        if self.db is None:
            return 0
        return self.db.errors.get(self.w.current.name, 0)

    def settle(self):
        model.check(self.w, self.h.ops, self.state)


def go(w, site, quiet):
    n = w.between(2, 3)
    ts = []
    for i in range(n):
        p = i % len(site.procs)
        c = Client(site, site.procs[p], 'T%d' % i)
        ts.append(w.spawn(lambda c=c: c.run(w.between(2, 7), quiet),
                          'T%d' % i, group='P%d' % p))
    for t in ts:
        w.join(t)
    # what is there at the end
    if site.db is not None:
        site.db.calm()

    def last():
        c = Client(site, site.procs[0], 'end')
        for name in site.names:
            for key in site.keys:
                c.read(name, key, FIELDS + ('v',))
        for x in list(c.copies):
            c.update(x)
            c.update(x)
    w.join(w.spawn(last, 'end', group='P0'))
    site.settle()


def memory(w):
    w.randomize_sched(line_mean=(0, 20, 100))
    site = Site(w, 'mem')
    site.p_partial = w.pick((0.0, 0.3))
    go(w, site, w.pick((0.0, 0.5)))


def sql(w):
    w.randomize_sched(line_mean=(0, 0, 200))
    site = Site(w, 'sql', w.between(1, 3), max_connections=w.pick((1, 10)))
    site.p_partial = w.pick((0.0, 0.3))
    if w.chance(0.3):
        # the clocks do not agree
        d = w.pick((1.0, 3.0))
        w.tags['skew'] = {'P%d' % i: w.pick((0.0, d, -d)) for i in range(3)}
    if w.chance(0.3):
        db = site.db
        db.p_read = w.pick((0.0, 0.05))
        db.p_write = w.pick((0.0, 0.1))
        db.p_busy = w.pick((0.0, 0.1))
        db.p_commit = w.pick((0.0, 0.2))
    go(w, site, w.pick((0.0, 0.5)))


CHECK = Check(
    'C17',
    [Scenario('memory', memory, quick=800),
     Scenario('sql', sql, quick=600)],
    rule='there is an order of all operations in which every update was '
         'based on the version before it or was refused, and which explains '
         'all data and tokens read',
    real=['pyslet.odata2.csdl', 'pyslet.odata2.memds',
          'pyslet.odata2.sqlds on the sqlite3 library'],
    stub=['sqlite3.connect passes through a seam; processes are groups of '
          'threads with their own containers and clocks'],
    faults=['sql-read-error', 'sql-write-error', 'sql-write-busy',
            'commit-error'],
    line_files=['pyslet/odata2/sqlds.py', 'pyslet/odata2/memds.py'],
    assumptions=['keys are not used again after a delete; no updates '
                 'through HTTP, whose server has no conditional requests'],
    probes=['conflict', 'failed'])
