"""C18: remote operations do what the same operations on the server do."""
import decimal
import io
import json
import operator
import uuid

from .httplib import NETS                   # noqa: (seams first)
from .serverlib import SimServer

from sim import core, net
from sim.core import Violation
from sim.runner import Check, Scenario
from . import edmlib, model

from pyslet import iso8601 as iso
from pyslet.http import client as http
from pyslet.http import params
from pyslet.odata2 import client as odata
from pyslet.odata2 import core as odcore
from pyslet.odata2 import csdl
from pyslet.odata2.server import Server

HOST = 'data.example.com'
ROOT = 'http://%s/svc/' % HOST


class RemoteClient(odata.Client):

    """Marks the requests with the operation they are made for."""

    def queue_request(self, request, timeout=60):
        o = core.WORLD.tags.get('op', {}).get(core.WORLD.current)
        if o is not None:
            o.requests.append(request)
            request.set_header('X-Op', '%i-%i' % (
                o.token, len(o.requests)))
        super(RemoteClient, self).queue_request(request, timeout)


class Input(object):

    """The body of a request that may end too soon."""

    def __init__(self, app, tok, size, src):
        self.app = app
        self.tok = tok
        self.left = size
        self.src = src

    def read(self, *args):
        try:
            data = self.src.read(*args)
        except Exception:
            self.app.short.add(self.tok)
            raise
        if data is not None:
            self.left -= len(data)
            if not data and self.left > 0 and args[:1] != (0,):
                self.app.short.add(self.tok)
        return data

    def __getattr__(self, name):
        return getattr(self.src, name)


class App(object):

    """The service, and what it was asked to do."""

    def __init__(self, w, app):
        self.w = w
        self.app = app
        self.calls = {}         # token of a request: calls
        self.busy = 0
        self.p_refuse = 0.0
        self.refused = 0
        self.failures = []
        self.answered = set()
        self.short = set()

    def __call__(self, environ, start_response):
        tok = environ.get('HTTP_X_OP')
        if self.p_refuse and self.w.fault('unavailable', self.p_refuse):
            self.refused += 1
            start_response('503 Service Unavailable', [
                ('Content-Type', 'text/plain'), ('Content-Length', '5')])
            return [b'later']
        self.calls[tok] = self.calls.get(tok, 0) + 1
        self.busy += 1
        n = environ.get('CONTENT_LENGTH')
        if n and int(n):
            environ['wsgi.input'] = Input(self, tok, int(n),
                                          environ['wsgi.input'])

        def start(status, headers, exc_info=None):
            self.answered.add(tok)
            if status[:3] in ('400', '500'):
                self.failures.append((tok, environ['REQUEST_METHOD'],
                                      environ['PATH_INFO'], status))
            return start_response(status, headers)
        try:
            if self.p_refuse and self.w.fault('bad-gateway', self.p_refuse):
                self.refused += 1
                for x in self.app(environ, lambda s, h, e=None: None):
                    pass
                start_response('502 Bad Gateway', [
                    ('Content-Type', 'text/plain'), ('Content-Length', '4')])
                return [b'lost']
            data = self.app(environ, start)
            if isinstance(data, list):
                if self.failures and self.failures[-1][0] == tok:
                    self.failures[-1] += (b''.join(data)[:300],)
                return data
            return self.rest(data)
        finally:
            self.busy -= 1

    def rest(self, data):
        self.busy += 1
        try:
            for x in data:
                yield x
        finally:
            if hasattr(data, 'close'):
                data.close()
            self.busy -= 1


class State(model.State):

    def step(self, o):
        if o.kind == 'nav-seen':
            # it was free, or had that key
            name, key, nav, tkey = o.args
            now = self.linked(name, key, nav)
            return (name, key) in self.ents and (
                now == o.res or now == set((tkey,)))
        return super(State, self).step(o)

    def change(self, o):
        if o.kind == 'unlink-any':
            now = self.linked(*o.args)
            if not now:
                raise model.Refused('no link')
            self.unlink(*(o.args + (min(now),)))
        else:
            super(State, self).change(o)


class Data(bytes):

    def __repr__(self):
        if len(self) < 40:
            return bytes.__repr__(self)
        return '%r(%i)' % (bytes(self[:5]), len(self))


class Generator(model.Generator):

    def data(self):
        w = self.w
        n = w.pick((0, 1, 30, 2000, 20000))
        return Data(b'%d:' % w.draw(1000) + bytes(
            i % 251 for i in range(w.between(n // 2, n))))


class Op(model.Op):

    __slots__ = ('requests', 'token', 'inserted')


class History(model.History):

    def begin(self, kind, args):
        o = Op()
        o.kind, o.args = kind, args
        self.n += 1
        o.start = o.token = self.n
        o.end = None
        o.res = None
        o.error = None
        o.inserted = None
        o.requests = []
        o.who = self.w.current.name
        self.ops.append(o)
        self.w.tags.setdefault('op', {})[self.w.current] = o
        return o

    def finish(self, o, res):
        self.w.tags['op'].pop(self.w.current, None)
        super(History, self).finish(o, res)

    def later(self, o, kind, args, res, end=True):
        p = Op()
        p.kind, p.args, p.res = kind, args, res
        p.start, p.end, p.who = o.start, o.end if end else None, o.who
        p.error = p.inserted = None
        p.requests = []
        p.token = o.token
        self.ops.append(p)
        return p


WRITES = ('POST', 'PUT', 'MERGE', 'DELETE')


class Client(model.Client):

    """Uses the service from far away."""

    site = None

    def do(self, kind, *args):
        o = super(Client, self).do(kind, *args)
        site = self.site
        n = 0
        unsure = False
        for i, r in enumerate(o.requests):
            if r.method not in WRITES:
                continue
            k = site.app.calls.get('%i-%i' % (o.token, i + 1), 0)
            if k > 1:
                self.w.probe('repeated')
                if r.method == 'POST':
                    raise Violation('repeated', '%r: %s was carried out %i '
                                    'times' % (o, r.method, k))
            n += max(0, k - 1)
            if r.status in (0, 502) or r.status == 503 and k:
                unsure = True
        if o.inserted is not None:
            # an insert, then a link
            name, key, nav, new = o.args
            link = self.h.later(o, 'link', (name, key, nav, o.inserted),
                                'fail' if o.res == 'fail' else 'ok')
            link.error = o.error
            self.h.later(o, 'insert', (new,), ('key', o.inserted))
            self.h.ops.remove(o)
            link.requests = o.requests[1:]
            o = link
        elif o.kind == 'nav-insert' and unsure and \
                model.mult(o.args[0], o.args[2])[0] != '1':
            # the insert is in doubt, there was no link
            o.kind, o.args = 'insert', o.args[3:]
        if o.res == 'fail' and (unsure or n):
            site.doubt.append(o)
        elif n:
            # (may be repeated: see RFC 2616)
            for i in range(n):
                site.doubt.append(self.h.later(o, o.kind, o.args, o.res))
        if self.broken(o):
            self.w.probe('lost')
            if o.res == 'fail' and o not in site.doubt:
                site.lost.append(o)
        if not site.alone and o.kind == 'get-stream' and \
                o.res == b'' and any(r.status == 404 for r in o.requests):
            # an entity without a stream?  It was made meanwhile.
            self.w.probe('made-meanwhile')
            site.lost.append(o)
        if o.kind in ('link', 'unlink') and \
                model.mult(o.args[0], o.args[2])[1] != '*':
            # a look at what is there, then a change
            name, key, nav, tkey = o.args
            for x in [o] + [x for x in site.doubt if x is not o and
                            (x.start, x.kind) == (o.start, o.kind)]:
                if x.res == 'fail' and x not in site.doubt:
                    continue
                if x.kind == 'link':
                    seen = frozenset()
                    x.kind = 'replace'
                else:
                    seen = frozenset((tkey,))
                    x.kind = 'unlink-any'
                    x.args = o.args[:3]
            if o.res != 'fail':
                self.h.later(o, 'nav-seen', (name, key, nav, tkey), seen)
        return o

    def broken(self, o):
        """Was there no answer, or one to a part of a request?"""
        site = self.site
        for i, r in enumerate(o.requests):
            tok = '%i-%i' % (o.token, i + 1)
            if r.status in (0, 502, 503):
                return True
            if not site.keyed:
                continue
            # what the server (not the service) says of a broken request
            if r.status == 400 and tok not in site.app.calls:
                return True
            if r.status in (400, 500) and tok in site.app.short:
                return True
            if r.status == 500 and tok not in site.app.answered:
                return True
        return False

    def failed(self, o, e):
        if self.broken(o):
            # (the connection)
            if isinstance(e, (odata.UnexpectedHTTPResponse,
                              http.RequestManagerBusy)):
                return
        if isinstance(e, odata.UnexpectedHTTPResponse) and \
                str(e).startswith('404'):
            # the entity with the navigation property is gone
            return
        if isinstance(e, (KeyError, csdl.EDMError)):
            return
        raise Violation('error', '%r raised %s: %s %s' % (
            o, type(e).__name__, e, self.site.app.failures[-1:]))

    def do_get_stream(self, o, key):
        return Data(super(Client, self).do_get_stream(o, key))

    def do_nav_insert(self, o, name, key, nav, new):
        with self.get(name, key)[nav].open() as coll:
            t = self.make(coll, new)
            try:
                coll.insert_entity(t)
            finally:
                if t.exists and model.mult(name, nav)[0] != '1':
                    o.inserted = t.key()
            return ('key', t.key())


class Site(object):

    def __init__(self, w, groups=None, nclients=1, nets=('calm',),
                 kind='mem', topmax=None, source=None):
        self.w = w
        self.app = None
        self.netname = w.pick(nets)
        self.profile = net.Profile(**NETS[self.netname])
        off = self.profile.off_after
        self.profile.off_after = 0.0
        self.net = net.Net(w, self.profile)
        self.net.hosts = set([HOST])
        w.quiet += 1
        source = source or model.metadata()
        if kind == 'mem':
            self.store = edmlib.Mem(w, source, model.NAME)
            self.c = self.store.c
            doc = self.store.doc
        else:
            self.store = edmlib.Sql(w, source, model.NAME,
                                    memory=True)
            self.c = self.store.open()
            doc = self.store.docs[0]
        server = Server(ROOT)
        server.set_model(doc)
        # (in memory, pages are found by their position)
        server.topmax = w.pick((1, 2, 100)) if topmax is None else topmax
        self.app = App(w, server)
        self.server = SimServer(80, app=self.app, authorities=['localhost', HOST])
        w.spawn(self.accept, 'acceptor', daemon=True)
        self.h = History(w)
        self.gen = Generator(w, groups)
        self.gen.auto = 0.0
        self.state = State()
        self.doubt = []         # may have been carried out
        self.lost = []          # no answer
        self.remotes = []
        for i in range(nclients):
            r = RemoteClient(max_connections=w.pick((1, 3)),
                             timeout=w.pick((5.0, 20.0)))
            w.join(w.spawn(lambda: r.load_service(ROOT), 'load%d' % i))
            self.remotes.append(r)
        w.quiet -= 1
        self.profile.off_after = off

    def accept(self):
        from select import select
        s = self.server
        while True:
            r, x, y = select([s.socket], [], [], None)
            if r:
                s._handle_request_noblock()

    def client(self, i):
        c = Client(self.h, self.remotes[i % len(self.remotes)].feeds)
        c.site = self
        return c

    def local(self):
        """At the server."""
        return model.Client(self.h, self.c)

    next = 100

    def op(self):
        w = self.w
        op = self.gen.op()
        if op[0] == 'update':
            # (the others take one request each)
            op = op[:5] + (tuple(
                (nav, k) for nav, k in op[5]
                if model.mult(op[1], nav)[1] != '*'),)
        elif op[0] == 'replace' and not self.alone and \
                model.mult(op[1], op[3])[1] == '*':
            # (removes all links, then makes one)
            op = ('link',) + op[1:]
        if self.keyed:
            # (nobody may learn an automatic key)
            if op[0] == 'insert' and op[1].key is None:
                op[1].key = self.gen.key(op[1].name)
            elif op[0] == 'new-stream':
                # (nor one found in place of one in use)
                self.next += 1
                self.gen.keys += (self.next,)
                op = (op[0], self.next) + op[2:]
        return op

    keyed = False
    alone = True

    def run(self, nthreads, nops):
        w = self.w

        def go(c):
            for i in range(nops):
                c.do(*self.op())
                if w.chance(0.1):
                    w.sleep(w.pick((0.0, 0.1, 1.0)))
        ts = [w.spawn(lambda c=self.client(i): go(c), 'T%d' % i)
              for i in range(nthreads)]
        for t in ts:
            w.join(t)

    def settle(self):
        """The service has what the operations explain."""
        w = self.w
        for i in range(100):
            if not self.app.busy:
                break
            w.sleep(1.0)
        self.local().do('dump', *model.ALL)
        for x in self.doubt:
            x.end = None
            x.res = self.guess(x)
        ops = [x for x in self.h.ops if x not in self.lost]
        s = model.check(w, ops, self.state, self.doubt)
        # (which of those in doubt were done can be seen only here)
        self.state = load(self.h.ops[-1].res)
        del self.h.ops[:]
        self.doubt = []
        self.lost = []

    def recover(self):
        """A good network: operations do not fail because of the past."""
        for i in range(len(self.remotes)):
            self.run(1, 2)
        self.settle()

    def guess(self, x):
        if x.res != 'fail':
            return x.res
        if x.kind in ('insert', 'nav-insert', 'new-stream'):
            new = x.args[3 if x.kind == 'nav-insert' else 0]
            return ('key', getattr(new, 'key', new))
        return 'ok'


def load(rows):
    s = State()
    for (name, key), row in rows.items():
        s.ents[name, key] = row[0]
        for nav, keys in zip(model.navs(name), row[1:]):
            for k in keys:
                s.put(name, key, nav, k)
        if name == 'Files':
            s.streams[key] = row[-1]
    return s


def sequential(w):
    """One client; the network is good."""
    site = Site(w, nets=('calm', 'frag', 'slow'))
    for i in range(w.between(1, 3)):
        site.run(1, w.between(1, 8))
        site.settle()


def concurrent(w):
    """A few clients at a time; the network is good."""
    w.randomize_sched(line_mean=(0, 30, 100))
    site = Site(w, nclients=w.between(1, 2), nets=('calm', 'calm', 'slow'),
                topmax=100)
    site.run(1, w.between(0, 6))
    site.settle()
    site.alone = False
    for i in range(w.between(1, 2)):
        site.run(w.between(2, 3), w.between(1, 3))
        site.settle()


def faults(w):
    """Connections break, stall and fail."""
    w.randomize_sched(line_mean=(0, 0, 100))
    site = Site(w, nclients=w.between(1, 2), nets=(
        'cutting', 'cutting', 'dead', 'refuse', 'storm'))
    w.quiet += 1
    site.profile.off_after = 0.0
    site.run(1, w.between(0, 6))
    w.quiet -= 1
    site.profile.off_after = None
    site.alone = False
    site.keyed = True
    for r in site.remotes:
        r.idle_cleanup(0)
    site.app.p_refuse = w.pick((0.0, 0.0, 0.15))
    n = w.pick((1, 1, 2))
    site.run(n, w.between(1, 6) if n == 1 else w.between(1, 3))
    site.net.clear_faults()
    site.profile.off_after = 0.0
    site.app.p_refuse = 0.0
    site.settle()
    site.recover()


def streams(w):
    """Large media streams, over connections that break."""
    w.randomize_sched(line_mean=(0, 0, 100))
    site = Site(w, nclients=w.between(1, 2), nets=(
        'frag', 'cutting', 'cutting', 'storm', 'dead'))
    keys = (1, 2, 3)
    now = {}                # key: what may be there
    types = ('text/plain', 'application/octet-stream', 'image/x-y')
    made = [0]

    def data():
        made[0] += 1
        n = w.weighted(((1, 0), (1, 1), (2, w.between(2, 60)),
                        (3, w.between(200, 2000)), (4, 20000)))
        t = w.pick(types)
        return (b'%d:' % made[0] + b'0123456789abcdef' *
                (n // 16 + 1))[:n] if n else b'', t
    w.quiet += 1
    site.profile.off_after = 0.0
    for k in keys:
        d, t = data()
        info = odcore.StreamInfo(
            type=params.MediaType.from_str(t), size=len(d))
        with site.c['Files'].open() as coll:
            coll.new_stream(model.Source(w, d), key=k, sinfo=info)
        now[k] = [set([(d, t)]), []]
    w.quiet -= 1
    site.profile.off_after = None
    for r in site.remotes:
        r.idle_cleanup(0)

    def lost():
        # (the server may still be at it)
        for i in range(200):
            w.sleep(2.0)
            if not site.app.busy:
                break

    def put(coll, k):
        d, t = data()
        v = (d, t)
        # (the size is not always known before)
        info = odcore.StreamInfo(
            type=params.MediaType.from_str(t),
            size=len(d) if w.chance(0.5) else None)
        now[k][0].add(v)
        now[k][1].append(v)
        fail = None
        if len(d) > 1 and w.chance(0.15):
            fail = w.between(0, len(d) - 1)
        src = model.Source(w, d if fail is None else d[:fail], fail)
        try:
            coll.update_stream(src, k, sinfo=info)
            if fail is not None:
                raise Violation('stream', 'a stream of %d bytes was stored '
                                'though reading it failed' % len(d))
            w.log('put', k, len(d), 'ok')
            w.probe('stream-put')
            now[k][0] = set([v])
        except (KeyError, csdl.EDMError, IOError,
                odata.UnexpectedHTTPResponse) as e:
            w.log('put', k, len(d), type(e).__name__)
            lost()
            if fail is not None:
                # (never was it there as a whole)
                now[k][0].discard(v)

    def get(coll, k):
        none = w.chance(0.05)
        if none:
            k = 9
        was = set(now[k][0]) if k in now else set()
        seen = len(now[k][1]) if k in now else 0
        how = w.pick(('out', 'gen', 'part', 'head'))
        out = None
        try:
            if how == 'out':
                sink = model.Sink(w)
                info = coll.read_stream(k, sink)
                out = sink.data
            elif how == 'head':
                info = coll.read_stream(k)
            else:
                with site_coll(coll) as c:
                    info, gen = c.read_stream_close(k)
                    if how == 'gen':
                        out = b''.join(gen)
                    else:
                        part = b''
                        for x in gen:
                            part += x
                            if w.chance(0.4):
                                break
                        gen.close()
        except (KeyError, csdl.EDMError, odata.UnexpectedHTTPResponse) as e:
            w.log('get', k, how, type(e).__name__)
            w.probe('stream-lost')
            if site.netname == 'frag' and not none:
                raise Violation('stream', 'stream %r of %r: %r' % (
                    k, [len(x[0]) for x in was], e))
            return
        w.log('get', k, how)
        if none:
            raise Violation('stream', 'a stream of no entity was read')
        may = was | set(now[k][1][seen:])
        # (an empty stream has no type, it is said not to be there)
        ok = [x for x in may if
              (out is None or x[0] == out) and
              (how != 'part' or x[0].startswith(part)) and
              (info.size is None or info.size == len(x[0])) and
              (str(info.type) == x[1] or not x[0])]
        if not ok:
            raise Violation('stream', '%s of stream %r: %r bytes %r (%r), '
                            'expected one of %r' % (
                                how, k, None if out is None else len(out),
                                info.size, str(info.type),
                                [(len(x[0]), x[1]) for x in may]))

    def go(i, n):
        with site.remotes[i % len(site.remotes)].feeds['Files'].open() as c:
            for j in range(n):
                if w.chance(0.4):
                    put(c, keys[i])
                else:
                    get(c, w.pick(keys))
    n = w.pick((1, 1, 2))
    for r in site.remotes:
        # (one that is not read to its end keeps its connection)
        r.max_connections = 3
    for t in [w.spawn(lambda i=i: go(i, w.between(1, 5)), 'S%d' % i)
              for i in range(n)]:
        w.join(t)
    site.net.clear_faults()
    site.profile.off_after = 0.0
    lost()
    for k in keys:
        sink = model.Sink(w)
        with site.c['Files'].open() as coll:
            info = coll.read_stream(k, sink)
        if (sink.data, str(info.type)) not in now[k][0]:
            raise Violation('stream', 'stream %r is now %r bytes (%s), '
                            'expected one of %r' % (
                                k, len(sink.data), info.type,
                                [(len(x[0]), x[1]) for x in now[k][0]]))


class site_coll(object):

    """A collection that is not closed with the block."""

    def __init__(self, coll):
        self.coll = coll

    def __enter__(self):
        return self.coll.entity_set.open()

    def __exit__(self, *args):
        pass


def null_first(x):
    return (x is not None, x)


def paging(w):
    """Feeds of several pages, while other entities come and go."""
    w.randomize_sched(line_mean=(0, 0, 100))
    kind = w.pick(('mem', 'sql'))
    top = w.between(1, 5)
    site = Site(w, nclients=2, nets=(
        'calm', 'frag', 'cutting', 'cutting', 'storm'), kind=kind,
        topmax=top)
    moving = kind == 'sql' and w.chance(0.6)
    # too long for a token?  The page is found by position.
    long = 'x' * (2 if moving else w.pick((2, 2, 600)))
    keys = sorted(set(w.between(1, 40) for i in range(w.between(0, 14))))
    vals = {}
    with site.c['Players'].open() as coll:
        for k in keys:
            e = coll.new_entity()
            e.set_key(k)
            vals[k] = (w.pick(('n0', 'n1', long, None)),
                       w.pick((0, 1, 2, 3, None)))
            e['name'].set_from_value(vals[k][0])
            e['rank'].set_from_value(vals[k][1])
            coll.insert_entity(e)
    site.keyed = True
    for r in site.remotes:
        r.idle_cleanup(0)
    going = []

    def others():
        # (their keys are not used by the rest)
        c = site.remotes[0].feeds['Players']
        for i in range(w.between(2, 12)):
            k = w.between(41, 44) if w.chance(0.5) else -w.between(1, 4)
            try:
                with c.open() as coll:
                    if w.chance(0.6):
                        e = coll.new_entity()
                        e.set_key(k)
                        e['name'].set_from_value('n%i' % w.between(0, 3))
                        e['rank'].set_from_value(w.between(0, 3))
                        coll.insert_entity(e)
                    else:
                        del coll[k]
            except (KeyError, csdl.EDMError, odata.UnexpectedHTTPResponse):
                pass

    def one():
        with site.remotes[1].feeds['Players'].open() as coll:
            want = list(keys)
            what = []
            if w.chance(0.4):
                n = w.between(0, 3)
                coll.set_filter(odcore.CommonExpression.from_str(
                    'rank gt %i' % n))
                want = [k for k in want if (vals[k][1] or 0) > n]
                what.append('rank gt %i' % n)
            if w.chance(0.5):
                by = w.pick(('name', 'rank desc', 'rank,name desc', 'id',
                             'id desc'))
                coll.set_orderby(
                    odcore.CommonExpression.orderby_from_str(by))
                what.append(by)
                for x in reversed(by.split(',')):
                    f, _, d = x.partition(' ')
                    want.sort(key=lambda k: null_first(dict(
                        id=k, name=vals[k][0], rank=vals[k][1])[f]),
                        reverse=bool(d))
            how = w.pick(('all', 'pages', 'top', 'count', 'key', 'has'))
            skip = 0
            if how == 'top' and moving:
                how = 'pages'
            try:
                if how == 'all':
                    got = list(coll.itervalues())
                elif how == 'pages':
                    got = []
                    coll.set_page(None)
                    while True:
                        page = list(coll.iterpage(True))
                        if len(page) > top:
                            raise Violation('page', '%i entities in a page '
                                            'of %i' % (len(page), top))
                        got += page
                        if coll.nextSkiptoken is None:
                            break
                elif how == 'top':
                    n, skip = w.between(1, 8), w.between(0, 4)
                    coll.set_page(n, skip)
                    got = list(coll.iterpage())
                    want = want[skip:skip + min(n, top)]
                    what.append('skip %i top %i' % (skip, n))
                elif how == 'count':
                    n = len(coll)
                    if not moving and n != len(want):
                        raise Violation('count', '%i, not %i (%s)' % (
                            n, len(want), what))
                    return
                else:
                    k = w.between(1, 40)
                    if how == 'has':
                        e = [k] if k in coll else []
                    else:
                        try:
                            e = [coll[k].key()]
                        except KeyError:
                            e = []
                    if e != [x for x in want if x == k]:
                        raise Violation('key', '%i: %r, not %r (%s)' % (
                            k, e, want, what))
                    return
            except odata.UnexpectedHTTPResponse as e:
                w.log('failed', how)
                if site.netname in ('calm', 'frag') and \
                        not site.app.refused:
                    raise Violation('error', '%s %s: %s %s' % (
                        how, what, e, site.app.failures[-1:]))
                return
        all_ = [e.key() for e in got]
        ks = [k for k in all_ if moving is False or k in vals]
        if sorted(ks) != sorted(want) or ks != want and by_of(what):
            raise Violation('feed', '%s %s: %r, not %r' % (
                how, what, all_, want))
        for e in got:
            if e.key() in vals and \
                    vals[e.key()] != (e['name'].value, e['rank'].value):
                raise Violation('data', '%r' % e.key())
        w.log('feed', how, len(all_))

    def by_of(what):
        # (the order of what is equal is not defined)
        return not any('id' not in x and 'gt' not in x and 'skip' not in x
                       for x in what)

    def reader():
        for i in range(w.between(2, 6)):
            one()
    site.app.p_refuse = w.pick((0.0, 0.0, 0.1))
    ts = [w.spawn(reader, 'R')]
    if moving:
        ts.append(w.spawn(others, 'W'))
    for t in ts:
        w.join(t)


TYPES = (
    ('String', 'MaxLength="max" Unicode="true"', (
        '', 'a', ' lead', 'trail ', ' ', 'tab\there', 'line\nfeed', '\n',
        'cr\rlf\r\n', "O'Brien", "''", '<&>"', ']]>', '&amp;', u'\xe9',
        u'\u65e5\u672c', u'\U0001F600', 'a/b?c#d%20', '+ +', 'null', '%',
        'datetime', u'\u2028', u'\x85', u'\xa0', 'x' * 5000, '\\', '1',
        '"quoted"', '{}')),
    ('Int16', '', (0, 1, -1, 32767, -32768)),
    ('Int32', '', (0, 1, -1, 2147483647, -2147483648)),
    ('Int64', '', (0, 1, -1, 9223372036854775807, -9223372036854775808)),
    ('Byte', '', (0, 1, 255)),
    ('SByte', '', (0, 127, -128)),
    ('Boolean', '', (True, False)),
    ('Double', '', (0.0, 1.0, -1.5, 0.1, 1.0 / 3, 1e300, 5e-324,
                    1.7976931348623157e308, -2.5e-7, 123456789.125)),
    ('Single', '', (0.0, 1.0, -1.5, 0.25, 16777216.0, 1.0e10)),
    ('Decimal', 'Precision="28" Scale="6"', tuple(
        decimal.Decimal(x) for x in (
            '0', '1', '-1', '0.1', '0.000001', '-12345678901234567890.5',
            '100', '99999999.999999'))),
    ('Guid', '', tuple(uuid.UUID(int=x) for x in (
        0, 1, 2 ** 128 - 1, 0x123456789abcdef0fedcba9876543210))),
    ('Binary', 'MaxLength="max"', (
        b'', b'\x00', b'\xff\xfe', b'abc', bytes(bytearray(range(256))),
        b'\n', b'x' * 3000)),
    ('DateTime', 'Precision="3"', tuple(
        iso.TimePoint.from_str(x) for x in (
            '1969-07-20T20:17:40', '2000-02-29T00:00:00',
            '1999-12-31T23:59:59', '2012-01-01T12:30:45.125',
            '1753-01-01T00:00:00', '9999-12-31T23:59:59'))),
    ('DateTimeOffset', 'Precision="3"', tuple(
        iso.TimePoint.from_str(x) for x in (
            '1969-07-20T20:17:40Z', '2000-02-29T00:00:00+01:00',
            '1999-12-31T23:59:59-08:30', '2012-01-01T12:30:45.125Z'))),
    ('Time', 'Precision="3"', tuple(
        iso.Time.from_str(x) for x in (
            '00:00:00', '20:17:40', '23:59:59', '12:30:45.125'))),
)

# what can be compared in a filter, and ordered, by any data service
FIND = ('String', 'Int16', 'Int32', 'Int64', 'Byte', 'Guid', 'DateTime')

# what may be a key
KEYS = [x for x in TYPES[0][2] if len(x) < 5000 and
        not set(x) & set(u'\t\n\r')]


def values_metadata():
    props = ''.join('<Property Name="p%s" Type="Edm.%s" Nullable="true" %s/>'
                    % (t[0], t[0], t[1]) for t in TYPES)
    return '''<?xml version="1.0" encoding="utf-8" standalone="yes"?>
<edmx:Edmx Version="1.0"
    xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
    xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
  <edmx:DataServices m:DataServiceVersion="2.0">
    <Schema Namespace="Sim" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
      <EntityContainer Name="Box" m:IsDefaultEntityContainer="true">
        <EntitySet Name="Things" EntityType="Sim.Thing"/>
        <EntitySet Name="Parts" EntityType="Sim.Part"/>
        <AssociationSet Name="Of" Association="Sim.Of">
          <End Role="A" EntitySet="Things"/>
          <End Role="B" EntitySet="Parts"/></AssociationSet>
      </EntityContainer>
      <EntityType Name="Thing"><Key><PropertyRef Name="Name"/></Key>
        <Property Name="Name" Type="Edm.String" Nullable="false"
            MaxLength="100" Unicode="true"/>%s
        <NavigationProperty Name="Parts" Relationship="Sim.Of" FromRole="A"
            ToRole="B"/>
      </EntityType>
      <EntityType Name="Part">
        <Key><PropertyRef Name="No"/><PropertyRef Name="Code"/></Key>
        <Property Name="No" Type="Edm.Int64" Nullable="false"/>
        <Property Name="Code" Type="Edm.String" Nullable="false"
            MaxLength="100" Unicode="true"/>
        <NavigationProperty Name="Thing" Relationship="Sim.Of" FromRole="B"
            ToRole="A"/>
      </EntityType>
      <Association Name="Of">
        <End Role="A" Type="Sim.Thing" Multiplicity="0..1"/>
        <End Role="B" Type="Sim.Part" Multiplicity="*"/>
      </Association>
    </Schema>
  </edmx:DataServices>
</edmx:Edmx>''' % props


def plain(e):
    return dict((k, v.value) for k, v in e.data_items())


def values(w):
    """Every kind of value, also as a key, comes back as it was."""
    site = Site(w, nets=('calm', 'frag'), kind=w.pick(('mem', 'sql')),
                source=values_metadata(), topmax=w.pick((1, 3, 100)))
    r = site.remotes[0]
    things, parts = r.feeds['Things'], r.feeds['Parts']
    have = {}
    links = {}
    tried = []
    keys = [w.pick(KEYS) for i in range(w.between(1, 4))]
    pkeys = [(w.pick(TYPES[3][2]), w.pick(KEYS)) for i in range(3)]

    def val(name):
        if w.chance(0.15):
            return None
        return w.pick([t for t in TYPES if 'p' + t[0] == name][0][2])

    def some(e):
        out = {}
        tried[:] = [out]
        for k, v in e.data_items():
            if k == 'Name' or w.chance(0.3):
                continue
            out[k] = val(k)
            v.set_from_value(out[k])
        return out

    def same(got, key, how):
        want = dict(have[key], Name=key)
        got = plain(got)
        for k in want:
            if got.get(k) != want[k] or (
                    type(got[k]) is not type(want[k]) and k != 'pSingle'):
                raise Violation('value', '%s %r: %s is %r, not %r' % (
                    how, key, k, got.get(k), want[k]))

    def get_json(url):
        q = http.ClientRequest(url)
        q.set_header('Accept', 'application/json')
        r.process_request(q)
        return q

    def put(method, url, data, ctype):
        q = http.ClientRequest(url, method, entity_body=data)
        q.set_header('Accept', 'application/json' if ctype.endswith('json')
                     else '*/*')
        q.set_content_type(params.MediaType.from_str(ctype))
        r.process_request(q)
        return q

    def op(kind):
        key = w.pick(keys)
        if kind == 'nothing':
            q = http.ClientRequest('http://%s/%s' % (
                HOST, w.pick(('', 'x', 'svc/x', 'svc'))))
            r.process_request(q)
            if q.status not in (404, 200):
                raise Violation('nothing', '%s %s' % (q.url, q.status))
            return
        with things.open() as coll:
            if kind == 'insert':
                e = coll.new_entity()
                e.set_key(key)
                new = some(e)
                try:
                    coll.insert_entity(e)
                    if key in have:
                        raise Violation('insert', '%r again' % key)
                    have[key] = dict((k, None) for k in props)
                    have[key].update(new)
                    same(e, key, 'insert')
                except csdl.ConstraintError:
                    if key not in have:
                        raise
            elif kind == 'insert-json':
                e = coll.new_entity()
                e.set_key(key)
                new = some(e)
                q = put('POST', str(things.get_location()), ''.join(
                    e.generate_entity_type_in_json()).encode('utf-8'),
                    'application/json')
                if q.status == 201:
                    if key in have:
                        raise Violation('insert', '%r again' % key)
                    have[key] = dict((k, None) for k in props)
                    have[key].update(new)
                elif key not in have:
                    raise Violation('insert', '%r: %s %s %s' % (
                        key, new, q.status, q.res_body))
            elif kind == 'list':
                got = list(coll.itervalues())
                if sorted(e.key() for e in got) != sorted(have):
                    raise Violation('list', '%r, not %r' % (
                        sorted(e.key() for e in got), sorted(have)))
                for e in got:
                    same(e, e.key(), 'list')
            elif kind == 'find':
                k = w.pick(['p' + x for x in FIND] + ['Name'])
                v = w.pick(keys) if k == 'Name' else val(k)
                if v is None:
                    return
                how = w.pick(('eq', 'eq', 'lt', 'le', 'gt', 'ge'))
                e = coll.new_entity()
                e[k].set_from_value(v)
                coll.set_filter(odcore.CommonExpression.from_str('%s %s %s' % (
                    k, how, odcore.ODataURI.format_literal(e[k]))))
                want = sorted(
                    x for x in have
                    if dict(have[x], Name=x)[k] is not None and
                    getattr(operator, how)(dict(have[x], Name=x)[k], v))
                got = sorted(e.key() for e in coll.itervalues())
                if got != want or len(coll) != len(want):
                    raise Violation('find', '%s %s %r: %r, not %r' % (
                        k, how, v, got, want))
            elif kind == 'sort':
                k = w.pick(['p' + x for x in FIND])
                d = w.chance(0.5)
                coll.set_orderby(odcore.CommonExpression.orderby_from_str(
                    k + (' desc' if d else ' asc')))
                got = list(coll.itervalues())
                vals = [e[k].value for e in got]
                want = sorted(
                    (have[e.key()][k] for e in got if e.key() in have),
                    key=lambda x: (x is not None, x), reverse=d)
                if vals != want or len(got) != len(have):
                    raise Violation('sort', '%s: %r, not %r' % (
                        k, vals, want))
            elif kind == 'has':
                if (key in coll) != (key in have):
                    raise Violation('has', '%r' % key)
            elif key not in have:
                try:
                    if kind == 'delete':
                        del coll[key]
                    else:
                        coll[key]
                    raise Violation('no-key', '%s %r' % (kind, key))
                except KeyError:
                    pass
            elif kind == 'get':
                same(coll[key], key, 'get')
            elif kind == 'update':
                e = coll[key]
                new = some(e)
                coll.update_entity(e)
                have[key].update(new)
                same(coll[key], key, 'update')
            elif kind == 'delete':
                del coll[key]
                del have[key]
                for p in links:
                    if links[p] == key:
                        links[p] = None
            elif kind == 'json':
                q = get_json(str(coll[key].get_location()))
                e = coll.new_entity()
                e.set_from_json_object(json.loads(
                    q.res_body.decode('utf-8'))['d'])
                same(e, key, 'json')
            elif kind == 'value':
                k = w.pick(sorted(props))
                if k == 'pBinary':
                    return
                url = '%s/%s/$value' % (coll[key].get_location(), k)
                q = http.ClientRequest(url)
                q.set_header('Accept', 'text/plain')
                r.process_request(q)
                v = have[key][k]
                if v is None:
                    if q.status != 404:
                        raise Violation('value', '%s: %s' % (k, q.status))
                    return
                e = coll.new_entity()
                e[k].set_from_literal(q.res_body.decode('utf-8'))
                if e[k].value != v:
                    raise Violation('value', '%s: %r, not %r' % (
                        k, e[k].value, v))
                new = val(k)
                if new is None:
                    return
                e[k].set_from_value(new)
                q = put('PUT', url, str(e[k]).encode('utf-8'),
                        'text/plain;charset=utf-8')
                if q.status != 204:
                    raise Violation('value', 'PUT %s %r: %s %r' % (
                        k, new, q.status, q.res_body))
                have[key][k] = new
                same(coll[key], key, 'value')
            elif kind == 'binary':
                url = '%s/pBinary/$value' % coll[key].get_location()
                new = w.pick([t for t in TYPES if t[0] == 'Binary'][0][2])
                if have[key]['pBinary'] is None:
                    return
                q = http.ClientRequest(url, 'PUT', entity_body=new)
                if w.chance(0.5):
                    q.set_content_type(params.MediaType.from_str(
                        'application/octet-stream'))
                r.process_request(q)
                if q.status != 204:
                    raise Violation('value', 'PUT %r: %s %r' % (
                        new[:20], q.status, q.res_body))
                have[key]['pBinary'] = new
                q = http.ClientRequest(url)
                q.set_header('Accept', 'application/octet-stream')
                r.process_request(q)
                if q.status != 200 or q.res_body != new:
                    raise Violation('value', '%r: %s %r' % (
                        new[:20], q.status, q.res_body[:20]))
            elif kind == 'links':
                q = http.ClientRequest(
                    '%s/$links/Parts' % coll[key].get_location())
                q.set_header('Accept', 'application/xml')
                r.process_request(q)
                doc = odcore.Document()
                doc.read(src=q.res_body)
                got = sorted(str(x.get_value())
                             for x in doc.root.get_children())
                with parts.open() as pc:
                    want = []
                    for p in links:
                        if links[p] == key:
                            e = pc.new_entity()
                            e.set_key(p)
                            want.append(str(e.get_location()))
                if got != sorted(want):
                    raise Violation('links', '%r, not %r' % (got, want))
            elif kind == 'part':
                with coll[key]['Parts'].open() as nav:
                    p = w.pick(pkeys)
                    with parts.open() as pc:
                        if p in links:
                            e = pc[p]
                        else:
                            e = pc.new_entity()
                            e.set_key(p)
                            pc.insert_entity(e)
                            links[p] = None
                    unlink = w.chance(0.3)
                    try:
                        if unlink:
                            del nav[p]
                            if links[p] != key:
                                raise Violation('unlink', repr((key, p)))
                            links[p] = None
                        else:
                            nav[p] = e
                            links[p] = key
                    except (KeyError, csdl.ConstraintError):
                        # (linked already, or not)
                        if links[p] is None and not unlink or \
                                links[p] == key and unlink:
                            raise
                    got = sorted(x.key() for x in nav.itervalues())
                    want = sorted(x for x in links if links[x] == key)
                    if got != want:
                        raise Violation('links', '%r: %r, not %r' % (
                            key, got, want))
                with parts.open() as pc:
                    for e in pc.itervalues():
                        t = e['Thing'].get_entity()
                        t = t and t.key()
                        if t != links[e.key()]:
                            raise Violation('links', '%r: %r, not %r' % (
                                e.key(), t, links[e.key()]))
        w.log(kind, len(have))

    with things.open() as coll:
        props = [k for k, v in coll.new_entity().data_items() if k != 'Name']
    for i in range(w.between(1, 25)):
        kind = w.pick(('insert', 'insert', 'insert-json', 'list', 'find',
                       'sort', 'has', 'get', 'update', 'delete', 'json', 'value',
                       'binary', 'part', 'part', 'links', 'nothing'))
        try:
            op(kind)
        except (csdl.EDMError, odata.UnexpectedHTTPResponse, KeyError,
                ValueError) as e:
            import traceback
            raise Violation('error', '%s: %r %s %s %s' % (
                kind, e, site.app.failures[-1:], (keys, tried),
                traceback.format_exc()[-500:]))


CHECK = Check(
    'C18',
    [Scenario('sequential', sequential, quick=150),
     Scenario('concurrent', concurrent, quick=200),
     Scenario('faults', faults, quick=250),
     Scenario('streams', streams, quick=200),
     Scenario('paging', paging, quick=200),
     Scenario('values', values, quick=200)],
    rule='there is an order of the operations, consistent with real time, '
         'in which a reference model gives the same results and the same '
         'final entities, links and streams at the server; an operation '
         'that raised was done in full, once, or not at all',
    real=['pyslet.odata2.client', 'pyslet.odata2.server',
          'pyslet.odata2.core', 'pyslet.odata2.memds',
          'pyslet.http.client', 'pyslet.http.server', 'pyslet.xml'],
    stub=['TCP, select and name look-up; threads are scheduled by the '
          'simulator'],
    faults=['net-*', 'unavailable', 'bad-gateway'],
    line_files=['pyslet/odata2/client.py', 'pyslet/odata2/server.py'],
    probes=[])
