"""C20: browsers, with cookies that carry signed sessions, and attackers."""
import html
import io
import re
import time
from urllib.parse import parse_qs, unquote_to_bytes, urlencode, urlsplit

from sim.core import Violation
from sim.runner import Check, Scenario
from . import c19, edmlib

import logging

from pyslet import iso8601 as iso       # noqa: E402
from pyslet import wsgi                 # noqa: E402

logging.getLogger('pyslet.wsgi').setLevel(logging.CRITICAL)

ROOT = 'http://app.example.com'
TIMEOUT = 600
ESTABLISH = 120
# times are kept in seconds
TICK = 1.0


def fields(text):
    """(sid, established, last seen) of the text of a session."""
    sid, est, seen = text.split('-', 2)
    return sid, est == '1', iso.TimePoint.from_str(seen).get_unixtime()


class Issued(object):

    def __init__(self, value):
        # num-salt-hash-session
        self.value = value
        text = unquote_to_bytes(value.split('-', 3)[3]).decode('ascii')
        self.text = text
        self.sid, self.established, self.seen = fields(text)


class Req(object):

    """A request and what came of it."""

    def __init__(self, method, url, cookies, ua, token=None):
        self.method = method
        self.url = url
        self.cookies = cookies          # list of (name, value)
        self.ua = ua
        self.token = token
        self.page = None                # (sid, established) given to the page
        self.merged = None
        self.status = None
        self.headers = []
        self.body = b''

    def header(self, name):
        return [v for k, v in self.headers if k.lower() == name.lower()]

    def __repr__(self):
        return '%s %s cookies=%r token=%r -> %r %r page=%r' % (
            self.method, self.url, self.cookies, self.token, self.status,
            self.header('Location'), self.page)


class Site(object):

    def __init__(self, w, kind, n, **kw):
        self.w = w
        if kind == 'mem':
            self.store = edmlib.Mem(w, c19.SCHEMA, 'KeySchema.KeyDatabase')
            self.db = None
        else:
            self.store = edmlib.Sql(w, c19.SCHEMA, 'KeySchema.KeyDatabase')
            self.db = self.store.db
        self.issued = {}        # value of the cookie -> Issued
        self.links = {}         # (s, return, sig) -> user agent
        self.exposed = set()    # session ids seen in links
        self.known = set()      # all session ids
        self.lures = []         # URLs the attacker has found
        self.stolen = []        # cookies the attacker has found
        self.apps = []
        self.keys = 0
        self.reqs = 0
        w.quiet += 1
        try:
            for i in range(n):
                self.apps.append((self.make('P%d' % i, self.store.open(**kw)),
                                  'P%d' % (i if self.db else 0)))
        finally:
            w.quiet -= 1

    def make(self, name, container, keynum=1, secret='secret', when=None):
        site = self

        class App(wsgi.SessionApp):

            def init_dispatcher(self):
                super(App, self).init_dispatcher()
                self.set_method('/', self.page)
                self.set_method('/page/*', self.page)

            @wsgi.session_decorator
            def page(self, context):
                s = context.session
                context.environ['req'].page = (s.sid, s.established)
                site.w.yield_point('page')
                context.set_status(200)
                return self.text_response(context, s.sid)

            def merge_session(self, context, merge_session):
                s = context.session
                context.environ['req'].merged = (
                    s.sid, merge_session.sid, merge_session.age())

        App.settings = {
            'WSGIApp': {'canonical_root': ROOT},
            'WSGIDataApp': {'keynum': keynum, 'secret': secret,
                            'cipher': 'plaintext', 'when': when},
            'SessionApp': {'timeout': TIMEOUT, 'cookie': 'sid',
                           'cookie_test': 'ctest', 'crsf_token': 'token',
                           'cookie_test_age': 8640000}}
        App.container = container
        App._session_timeout = TIMEOUT
        App._session_cookie = b'sid'
        App._test_cookie = b'ctest'
        App.csrf_token = 'token'
        return App()

    def errors(self):
        if self.db is None:
            return 0
        return self.db.errors.get(self.w.current.name, 0)

    # ----------------------------------------------------------- a request
    def serve(self, req):
        w = self.w
        app = w.pick(self.apps)[0]
        u = urlsplit(req.url)
        body = b''
        env = {'REQUEST_METHOD': req.method, 'SCRIPT_NAME': '',
               'PATH_INFO': u.path or '/', 'QUERY_STRING': u.query,
               'SERVER_NAME': 'app.example.com', 'SERVER_PORT': '80',
               'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.url_scheme': 'http',
               'HTTP_USER_AGENT': req.ua, 'req': req}
        if req.cookies:
            env['HTTP_COOKIE'] = '; '.join('%s=%s' % c for c in req.cookies)
        if req.method == 'POST':
            form = {'x': '1'}
            if req.token is not None:
                form['token'] = req.token
            body = urlencode(form).encode('ascii')
            env['CONTENT_TYPE'] = 'application/x-www-form-urlencoded'
            env['CONTENT_LENGTH'] = str(len(body))
        env['wsgi.input'] = io.BytesIO(body)
        known = set(self.known)
        errors = self.errors()
        self.reqs += 1

        def start(status, headers, exc=None):
            req.status = int(status.split()[0])
            req.headers = list(headers)

        t0 = time.time()
        req.body = b''.join(app(env, start))
        t1 = time.time()
        for v in req.header('Set-Cookie'):
            if v.startswith('sid=') and len(v.split(';')[0]) > 4:
                c = Issued(v.split(';')[0][4:])
                self.issued[c.value] = c
                self.known.add(c.sid)
                if c.established and c.sid in self.exposed:
                    raise Violation('exposed', '%s is established with its '
                                    'exposed identifier: %r' % (c.sid, req))
        if req.page:
            self.known.add(req.page[0])
        links = [x for x in req.header('Location')]
        links += [html.unescape(x) for x in re.findall(
            r'href="([^"]*)"', req.body.decode('latin-1'))]
        for link in links:
            q = parse_qs(urlsplit(link).query)
            if urlsplit(link).path in ('/ctest', '/wlaunch'):
                key = (q['s'][0], q['return'][0], q['sig'][0])
                if urlsplit(req.url).path not in ('/ctest', '/wlaunch'):
                    self.links[key] = req.ua
                sid = fields(q['s'][0])[0] if key in self.links else None
                if sid is not None:
                    self.exposed.add(sid)
                self.lures.append(link)
        w.log('request', req.method, u.path, req.status)
        self.judge(req, known, t0, t1, self.errors() > errors)

    def judge(self, req, known, t0, t1, failed):
        w = self.w
        if req.status == 500:
            if failed:
                w.probe('failed')
                return
            raise Violation('error', '%r %r' % (req, req.body[:200]))
        sids = [v for k, v in req.cookies if k == 'sid']
        test = any(k == 'ctest' for k, v in req.cookies)
        c = self.issued.get(sids[0]) if len(sids) == 1 else None
        if req.page:
            w.probe('page')
            sid, est = req.page
            new = [self.issued[v.split(';')[0][4:]]
                   for v in req.header('Set-Cookie') if v.startswith('sid=')]
            if len(new) != 1 or (new[0].sid, new[0].established) != req.page \
                    or not t0 - TICK <= new[0].seen <= t1:
                raise Violation('cookie', 'not updated: %r' % req)
            if req.method == 'POST' and (c is None or req.token != c.sid):
                raise Violation('csrf', 'form accepted: %r' % req)
            if not test:
                raise Violation('no-test', 'page without test: %r' % req)
            if sid in self.exposed:
                raise Violation('exposed', 'page with an exposed session '
                                'identifier: %r' % req)
            live = dead = False
            if c is not None:
                limit = TIMEOUT if c.established else ESTABLISH
                # certainly live, or certainly not
                live = t1 - c.seen <= limit - 0.001
                dead = t0 - c.seen > limit + TICK
                if c.established and sid == c.sid:
                    if dead:
                        raise Violation('expired', 'session used after %ds: '
                                        '%r' % (t0 - c.seen, req))
                    if not est:
                        raise Violation('state', repr(req))
                    w.probe('session')
                    return
                if live and c.established:
                    raise Violation('lost', 'session lost after %ds: %r' % (
                        t1 - c.seen, req))
                if est and c.established:
                    raise Violation('state', repr(req))
                if live and not est:
                    raise Violation('lost', 'session not established after '
                                    '%ds: %r' % (t1 - c.seen, req))
                if dead and est:
                    raise Violation('expired', 'session established after '
                                    '%ds: %r' % (t0 - c.seen, req))
            elif est:
                raise Violation('forged', 'established session: %r' % req)
            if sid in known:
                raise Violation('reused', 'not a new session: %r' % req)
            return
        path = urlsplit(req.url).path
        if path in ('/ctest', '/wlaunch'):
            q = {k: ','.join(v) for k, v in parse_qs(
                urlsplit(req.url).query).items()}
            key = tuple(q.get(x) for x in ('s', 'return', 'sig'))
            ua = self.links.get(key)
            good = ua is not None and ua == req.ua
            loc = req.header('Location')
            if loc and not loc[0].startswith(ROOT):
                raise Violation('redirect', repr(req))
            if req.merged:
                if not good:
                    raise Violation('forged', 'merged: %r' % req)
                if req.merged[2] > ESTABLISH + TICK:
                    raise Violation('expired', 'merged a session after %ds: '
                                    '%r' % (req.merged[2], req))
            if loc and loc[0] == q.get('return'):
                if not good:
                    raise Violation('forged', 'redirected: %r' % req)
                if path == '/ctest' and (
                        c is None or c.established or
                        c.sid != fields(key[0])[0]):
                    raise Violation('fixation', repr(req))
            elif loc and not good:
                raise Violation('forged', 'launched: %r' % req)
            return
        if req.status == 403:
            if req.method == 'POST' and c is not None and c.sid == req.token:
                raise Violation('refused', repr(req))
        elif req.status not in (303, 404, 400):
            raise Violation('status', repr(req))
        elif req.status == 303 and test:
            raise Violation('status', 'tested again: %r' % req)


class Browser(object):

    def __init__(self, site, name, ua):
        self.site = site
        self.w = site.w
        self.name = name
        self.ua = ua
        self.jar = {}           # name -> (value, expires)
        self.old = []           # values of session cookies it once had
        self.token = None
        self.blocked = False
        self.lossy = 0.0
        self.lost = False

    def cookies(self):
        if self.blocked:
            return []
        now = time.time()
        return [(k, v) for k, (v, end) in sorted(self.jar.items())
                if end is None or end > now]

    def send(self, method, url, token=None):
        w = self.w
        req = Req(method, url, self.cookies(), self.ua, token)
        if w.chance(self.lossy):
            w.count_fault('request-lost')
            self.lost = True
            return None
        self.site.serve(req)
        if w.chance(self.lossy):
            # the user, or some proxy, tries again
            w.count_fault('request-repeated')
            self.lost = True
            req = Req(method, url, self.cookies(), self.ua, token)
            self.site.serve(req)
        if w.chance(self.lossy):
            w.count_fault('response-lost')
            self.lost = True
            return None
        if w.chance(0.2):
            w.sleep(w.pick((0.01, 0.5, 2.0)))
        if not self.blocked:
            for v in req.header('Set-Cookie'):
                parts = [x.strip() for x in v.split(';')]
                name, value = parts[0].split('=', 1)
                end = None
                for x in parts[1:]:
                    if x.lower().startswith('max-age='):
                        end = time.time() + int(x[8:])
                if name == 'sid' and name in self.jar:
                    self.old.append(self.jar[name][0])
                self.jar[name] = (value, end)
        if req.page and req.status == 200:
            self.token = req.body.decode('ascii')
        return req

    def visit(self, method='GET', url=None, token=None, slow=0.0):
        """Follows redirects until there's a page."""
        w = self.w
        url = url or ROOT + w.pick(('/', '/page/a-b', '/page/x?y=1&z=%20',
                                   '/page/x-1-20991231T000000Z-y'))
        for i in range(7):
            req = self.send(method, url, token)
            if req is None:
                return None
            loc = req.header('Location')
            if not loc:
                return req
            method, url, token = 'GET', loc[0], None
            if w.chance(slow):
                w.sleep(w.pick((1.0, 119.0, 121.0, 700.0)))
                self.lost = True
        raise Violation('loop', 'redirected for ever: %r' % req)

    def live(self):
        """The session that must be given to us."""
        cs = dict(self.cookies())
        c = self.site.issued.get(cs.get('sid'))
        if 'ctest' in cs and c is not None and c.established and \
                time.time() - c.seen < TIMEOUT - TICK:
            return c.sid

    def browse(self):
        w = self.w
        self.lost = False
        sid = self.live()
        method, token = 'GET', None
        if w.chance(0.4) and self.jar.get('sid') and self.token:
            method, token = 'POST', self.token
        errors = self.site.errors()
        req = self.visit(method, token=token, slow=0.05)
        if req is None or self.lost or self.site.errors() > errors:
            return
        if req.status != 200 and method == 'GET':
            # what it has was spoiled, but then all is well again
            if sid is not None:
                raise Violation('refused', '%s: %r' % (self.name, req))
            for i in range(2):
                req = self.visit()
                if req is None or self.lost or req.status == 200:
                    break
            else:
                raise Violation('refused', '%s, again: %r' % (
                    self.name, req))
        if req is not None and req.status == 200 and not self.lost and \
                not self.blocked and not req.page:
            raise Violation('refused', '%s has cookies: %r' % (
                self.name, req))
        if sid is not None and req is not None and req.page and \
                method == 'GET' and not self.lost and req.page[0] != sid:
            raise Violation('lost', '%s had %s: %r' % (self.name, sid, req))

    def frame(self):
        """Cookies are blocked until it is opened in a window."""
        w = self.w
        keep, self.blocked = self.blocked, True
        self.lost = False
        errors = self.site.errors()
        t = time.time()
        req = self.visit()
        if req is None or self.lost or req.status != 200:
            self.blocked = keep
            return
        link = re.findall(r'href="([^"]*)"', req.body.decode('latin-1'))
        if not link:
            raise Violation('refused', 'no link: %r' % req)
        if w.chance(0.3):
            w.sleep(w.pick((1.0, 119.0, 121.0, 5000.0)))
        self.blocked = w.chance(0.2)
        req = self.visit(url=html.unescape(link[0]))
        if not (req is None or self.lost or self.site.errors() > errors):
            if self.blocked:
                if req.status != 200 or req.page or b'blocked' not in req.body:
                    raise Violation('blocked', repr(req))
            elif not req.page and time.time() - t < ESTABLISH - TICK:
                raise Violation('refused', '%s: %r' % (self.name, req))
        self.blocked = keep

    def step(self):
        w = self.w
        site = self.site
        what = w.weighted((
            (6, 'browse'), (1, 'frame'), (2, 'wait'), (0.5, 'drop'),
            (0.5, 'clear'), (0.7, 'old'), (0.7, 'bad-post'), (1, 'lured'),
            (1 if self.name == 'E' else 0.2, 'alter'),
            (3 if self.name == 'E' else 0, 'attack')))
        if what == 'browse':
            self.browse()
        elif what == 'frame':
            self.frame()
        elif what == 'wait':
            w.sleep(w.pick((1.0, 60.0, 118.0, 122.0, 300.0, 598.0, 602.0,
                            4000.0)))
        elif what == 'drop':
            self.jar.pop(w.pick(('sid', 'ctest')), None)
        elif what == 'clear':
            self.jar.clear()
        elif what == 'old' and self.old:
            # a cookie from some time ago
            self.jar['sid'] = (w.pick(self.old), None)
        elif what == 'bad-post':
            sids = sorted(site.known)
            self.visit('POST', token=w.pick(
                (None, '', 'x', w.pick(sids) if sids else 'y')))
        elif what == 'lured' and site.lures:
            self.lost = True
            self.visit(url=w.pick(site.lures[-4:]))
        elif what == 'alter' and 'sid' in self.jar:
            v, end = self.jar['sid']
            self.jar['sid'] = (self.altered(v), end)
        elif what == 'attack':
            self.attack()

    def altered(self, v):
        w = self.w
        parts = v.split('-', 3)
        if len(parts) != 4:
            return v
        text = unquote_to_bytes(parts[3]).decode('ascii', 'ignore')
        what = w.pick(('est', 'time', 'sid', 'flip', 'move', 'num', 'junk',
                       'sig', 'latin', 'twice'))
        if what == 'est':
            text = text.replace('-0-', '-1-')
        elif what == 'time':
            text = text.rsplit('-', 1)[0] + '-' + iso.TimePoint.from_unix_time(
                time.time()).get_calendar_string(basic=True)
        elif what == 'sid':
            sids = sorted(self.site.known)
            text = w.pick(sids) + text[text.index('-'):]
        elif what == 'flip':
            n = w.draw(len(text))
            text = text[:n] + 'A' + text[n + 1:]
        elif what == 'move':
            n = w.between(1, 5)
            parts[1] += text[:n].encode('ascii').hex()
            text = text[n:]
        elif what == 'num':
            parts[0] = w.pick(('0', '2', '99', '-1', 'x', '1' * 30))
        elif what == 'junk':
            return w.pick(('', 'x', '---', '1-2-3-4', '""', '%', v[:-1],
                           v + '-'))
        elif what == 'latin':
            return v + u'\xe9'
        elif what == 'twice':
            return v + '; sid=' + v + 'x'
        elif what == 'sig':
            # a signature made for a link
            links = sorted(self.site.links)
            if links:
                s, r, sig = w.pick(links)
                return sig + '-' + wsgi.escape_data(
                    w.pick(
                        (s, s + r, s + r + self.ua, r + s + self.ua,
                         urlencode([('return', r), ('s', s)]) + self.ua)
                    ).encode('ascii'))
        parts[3] = wsgi.escape_data(text.encode('ascii'))
        return '-'.join(parts)

    def attack(self):
        """A link that someone may follow."""
        w = self.w
        site = self.site
        links = sorted(site.links)
        if not links:
            return
        s, r, sig = w.pick(links)
        what = w.pick(('return', 's', 'ua', 'shift', 'page', 'sig', 'est',
                       'missing', 'host'))
        page = w.pick(('/ctest', '/wlaunch', '/page/y'))
        if what == 'return':
            r = 'http://evil.example.com/'
        elif what == 'host':
            r = w.pick((ROOT + '.evil.com/', ROOT + '@evil.com/',
                        '//evil.com/', '/page', ROOT + ':81/', ''))
        elif what == 's':
            s = w.pick(sorted(site.known)) + s[s.index('-'):]
        elif what == 'est':
            s = s.replace('-0-', '-1-')
        elif what == 'shift':
            n = w.between(1, 8)
            s, r = w.pick(((s[:-n], s[-n:] + r), (s + r[:n], r[n:])))
        elif what == 'sig' and len(links) > 1:
            sig = w.pick(links)[2]
        q = {'return': r, 's': s, 'sig': sig}
        if what == 'missing':
            del q[w.pick(('return', 's', 'sig'))]
        if w.chance(0.3):
            q['framed'] = '1'
        url = ROOT + page + '?' + urlencode(q)
        if w.chance(0.5):
            site.lures.append(url)
        else:
            self.lost = True
            self.visit(url=url)

    def run(self, n):
        for i in range(n):
            self.step()


def change_key(w, site):
    """The key is changed, one instance at a time starts with the new one."""
    w.sleep(w.pick((0.0, 10.0, 100.0)))
    old = site.apps[0][0].app_cipher
    when = iso.TimePoint.from_unix_time(time.time() + w.pick((1.0, 50.0)))
    num = old.key_num + 1
    old.change_key(num, b'secret%d' % num, when.shift_zone(0))
    for i, (app, group) in enumerate(site.apps):
        if i:
            app.app_cipher = wsgi.AppCipher(
                num, b'secret%d' % num, app.container['AppKeys'], when)
    w.probe('key-changed')


def go(w, site):
    bs = []
    for i in range(w.between(1, 2)):
        bs.append(Browser(site, 'B%d' % i, w.pick(('Moz-1', 'Gecko'))))
    if w.chance(0.6):
        bs.append(Browser(site, 'E', w.pick(('Moz-1', 'Evil'))))
    loss = w.pick((0.0, 0.0, 0.1))
    ts = []
    for b in bs:
        b.lossy = loss
        ts.append(w.spawn(lambda b=b: b.run(w.between(4, 14)), b.name))
    if w.chance(0.3):
        ts.append(w.spawn(lambda: change_key(w, site), 'admin'))
    for t in ts:
        w.join(t)


def browsers(w):
    w.randomize_sched(line_mean=(0, 0, 40))
    go(w, Site(w, 'mem', w.between(1, 2)))


def instances(w):
    w.randomize_sched(line_mean=(0, 0, 40))
    go(w, Site(w, 'sql', w.between(2, 3)))


CHECK = Check(
    'C20',
    [Scenario('browsers', browsers, quick=1200),
     Scenario('instances', instances, quick=500)],
    rule='a page is given the session of a genuine cookie that is live, or '
         'a new one; identifiers seen in links are never given to a page; '
         'forms need the token of their own cookie; links need a genuine '
         'signature and lead back to the application; a browser with '
         'cookies gets its page and keeps its session',
    real=['pyslet.wsgi.SessionApp and AppCipher', 'pyslet.http.cookie '
          '(parser and generator)', 'pyslet.odata2.memds',
          'pyslet.odata2.sqlds on the sqlite3 library'],
    stub=['the WSGI server: the application is called directly',
          'browsers with a simple cookie jar',
          'sqlite3.connect passes through a seam'],
    faults=['request-lost', 'request-repeated', 'response-lost'],
    line_files=['pyslet/wsgi.py'],
    assumptions=['requests of one browser are sequential'],
    probes=['page', 'session', 'key-changed'])
