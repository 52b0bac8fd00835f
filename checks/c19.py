"""C19: application ciphers whose key is changed."""
import hashlib
import os
import sqlite3
import sys
import time
import types

from sim.core import Violation
from sim.runner import Check, Scenario
from . import edmlib


class Aes(object):

    """Stands in for the block cipher of a library that isn't here."""

    block_size = 16
    MODE_CFB = 3

    def __init__(self, key, iv):
        self.key = key + iv

    @classmethod
    def new(cls, key, mode, iv):
        if len(key) not in (16, 24, 32) or len(iv) != 16:
            raise ValueError('key or iv')
        return cls(key, iv)

    def encrypt(self, data):
        out = b''
        i = 0
        while len(out) < len(data):
            out += hashlib.sha256(self.key + b'%d' % i).digest()
            i += 1
        return bytes(a ^ b for a, b in zip(data, out))

    decrypt = encrypt


class Rand(object):

    @staticmethod
    def new():
        return Rand

    @staticmethod
    def read(n):
        return os.urandom(n)


for name in ('Crypto', 'Crypto.Cipher', 'Crypto.Cipher.AES', 'Crypto.Random'):
    sys.modules.setdefault(name, types.ModuleType(name))
sys.modules['Crypto.Cipher'].AES = Aes
sys.modules['Crypto'].Random = Rand

from pyslet import iso8601 as iso       # noqa: E402
from pyslet import wsgi                 # noqa: E402
from pyslet.odata2 import csdl          # noqa: E402
from pyslet.odata2.sqlds import SQLError    # noqa: E402

SCHEMA = """<edmx:Edmx Version="1.0"
    xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
    xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
    <edmx:DataServices m:DataServiceVersion="2.0">
        <Schema Namespace="KeySchema"
            xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
            <EntityContainer Name="KeyDatabase"
                    m:IsDefaultEntityContainer="true">
                <EntitySet Name="AppKeys" EntityType="KeySchema.AppKey"/>
            </EntityContainer>
            <EntityType Name="AppKey">
                <Key>
                    <PropertyRef Name="KeyNum"/>
                </Key>
                <Property Name="KeyNum" Nullable="false" Type="Edm.Int32"/>
                <Property Name="KeyString" Nullable="false"
                    Type="Edm.String" MaxLength="256" Unicode="false"/>
                <Property Name="Expires" Nullable="false"
                    Type="Edm.DateTime" Precision="0"/>
            </EntityType>
        </Schema>
    </edmx:DataServices>
</edmx:Edmx>"""


class Key(object):

    def __init__(self, num, secret, when):
        self.num = num
        self.secret = secret
        self.when = when            # a TimePoint, or None


class Item(object):

    def __init__(self, kind, message, text, num):
        self.kind = kind
        self.message = message
        self.text = text
        self.num = num


class Instance(object):

    def __init__(self, name, group, keys):
        self.name = name
        self.group = group
        self.keys = keys
        self.cipher = None
        # position in the chain of keys and when that came into effect
        self.config = None
        self.changing = None        # the config it may have already


class Site(object):

    def __init__(self, w, kind, n, **kw):
        self.w = w
        if kind == 'mem':
            self.store = edmlib.Mem(w, SCHEMA, 'KeySchema.KeyDatabase')
            self.db = None
        else:
            self.store = edmlib.Sql(w, SCHEMA, 'KeySchema.KeyDatabase')
            self.db = self.store.db
        self.cls = w.pick((wsgi.AppCipher, wsgi.AESAppCipher))
        self.chain = [Key(w.pick((0, 5)), b'secret', None)]
        self.nums = {self.chain[0].num: 0}
        self.items = []
        self.signed = set()
        self.n = 0
        self.instances = []
        w.quiet += 1
        try:
            for i in range(n):
                group = 'P%d' % (i if self.db is not None else 0)
                x = Instance('A%d' % i, group,
                             self.store.open(**kw)['AppKeys'])
                x.cipher = self.cls(self.chain[0].num, b'secret', x.keys)
                x.config = (0, self.chain[0].num, None)
                self.instances.append(x)
        finally:
            w.quiet -= 1

    def errors(self):
        if self.db is None:
            return 0
        return self.db.errors.get(self.w.current.name, 0)

    def attempt(self, what, fn, *expected):
        """Returns (result, error); faults explain database errors."""
        before = self.errors()
        try:
            res = fn()
        except expected as e:
            return None, e
        except Exception as e:
            if isinstance(e, (SQLError, sqlite3.Error, csdl.EDMError)) and \
                    self.errors() > before:
                self.w.probe('failed')
                self.w.log('failed', what)
                return None, e
            raise Violation('error', '%s raised %s: %s' % (
                what, type(e).__name__, e))
        self.w.log(what)
        return res, None

    def stored(self, num):
        """The number of the key that took over from this one."""
        w = self.w
        w.quiet += 1
        try:
            with self.instances[0].keys.open() as coll:
                e = coll.get(num, None)
                if e is None:
                    return None
                return int(e['KeyString'].value.split(':')[0])
        finally:
            w.quiet -= 1

    # ------------------------------------------------------ what clients do
    def allowed(self, configs, t0, t1):
        out = set()
        for i, num, when in configs:
            if when is None or t1 >= when.get_unixtime():
                out.add(num)
            if when is not None and t0 <= when.get_unixtime():
                out.add(self.chain[i - 1].num)
        return out

    def make(self, x):
        w = self.w
        self.n += 1
        m = b'm%d/%s' % (self.n, w.pick((b'', b'-', b'a:b', b'\xc3\xa9%20',
                                         b'x' * 40)))
        if w.chance(0.05):
            m = b''
        kind = w.pick(('encrypt', 'encrypt', 'sign', 'ascii_sign'))
        configs = {x.config, x.changing or x.config}
        t0 = time.time()
        cipher = x.cipher
        hold = w.chance(0.2)

        def fn():
            if hold:
                # in the middle of something with the same data
                with x.keys.open() as coll:
                    n = len(coll)
                    assert n >= 0
                    return getattr(cipher, kind)(m)
            return getattr(cipher, kind)(m)
        if kind != 'encrypt':
            self.signed.add(m)
        text, err = self.attempt(kind, fn)
        if err is not None:
            return
        t1 = time.time()
        configs |= {x.config, x.changing or x.config}
        num = int(text.split(':' if kind == 'encrypt' else '-')[0])
        if num not in self.allowed(configs, t0, t1):
            raise Violation('key', '%s by %s used key %d, not one of %r' % (
                kind, x.name, num, sorted(self.allowed(configs, t0, t1))))
        self.items.append(Item(kind, m, text, num))

    def read(self, x):
        if not self.items:
            return
        i = self.w.pick(self.items)
        if self.nums.get(i.num, len(self.chain)) > x.config[0]:
            # newer than what this one was told about
            return
        c = x.cipher
        if i.kind == 'encrypt':
            res, err = self.attempt(
                'decrypt', lambda: c.decrypt(i.text))
        elif i.kind == 'sign':
            res, err = self.attempt(
                'check', lambda: c.check_signature(i.text, i.message))
        else:
            res, err = self.attempt(
                'check', lambda: c.check_signature(i.text))
        if err is None and res != i.message:
            raise Violation('message', '%r of %r read as %r' % (
                i.kind, i.message, res))

    def tamper(self, x):
        w = self.w
        items = [i for i in self.items if i.kind != 'encrypt']
        if not items:
            return
        i = w.pick(items)
        parts = i.text.split('-', 3)
        message = i.message if i.kind == 'sign' else None
        other = w.pick(items)
        what = w.pick(('salt+', 'salt-', 'hash', 'num', 'message', 'cut',
                       'given', 'none', 'swap', 'junk'))
        if what in ('salt+', 'salt-'):
            n = w.between(1, 3)
            salt = bytes.fromhex(parts[1])
            m = i.message
            if what == 'salt+':
                salt, m = salt + m[:n], m[n:]
            else:
                salt, m = salt[:-n], salt[-n:] + m
            parts[1] = salt.hex()
            if i.kind == 'sign':
                message = m
            else:
                parts[3] = wsgi.escape_data(m)
        elif what == 'hash':
            n = w.draw(len(parts[2]))
            parts[2] = parts[2][:n] + '%x' % (
                int(parts[2][n], 16) ^ 1) + parts[2][n + 1:]
        elif what == 'num':
            parts[0] = str(w.pick(list(self.nums) + [77, 10 ** 12, -1]))
        elif what == 'message':
            if i.kind == 'sign':
                message = message + b'!'
            else:
                parts[3] = 'x' + parts[3]
        elif what == 'given':
            message = w.pick((b'', b'forged', i.message[:-1]))
            if message in self.signed:
                return
        elif what == 'none':
            parts[3:] = []
            message = None
        elif what == 'swap':
            parts[2] = other.text.split('-', 3)[2]
        elif what == 'junk':
            n = w.draw(len(parts))
            parts[n] = w.pick(('', 'zz', 'z', '%', u'\xe9', '0x1'))
        text = '-'.join(parts)
        if what == 'cut':
            text = text[:w.draw(len(text))]
        res, err = self.attempt(
            'tampered', lambda: x.cipher.check_signature(text, message),
            ValueError)
        if err is None:
            w.probe('accepted')
            if res not in self.signed:
                raise Violation('forged', '%r of %r was accepted as a '
                                'signature of %r' % (text, i.message, res))
            if message is not None and res != message:
                raise Violation('forged', '%r was accepted for %r' % (
                    text, message))
        else:
            w.probe('refused')

    def client(self, x, n):
        w = self.w
        for j in range(n):
            what = w.weighted(((4, self.make), (5, self.read),
                               (1.5, self.tamper), (1, None)))
            if what is None:
                w.sleep(w.pick((0.1, 0.5, 1.0)))
            else:
                what(x)

    # ------------------------------------------------------- what admins do
    def when(self):
        w = self.w
        d = w.pick((-1.0, 0.0, 0.3, 1.0, 2.5))
        t = iso.TimePoint.from_unix_time(time.time() + d)
        z = w.pick((None, None, (1, 5, 0), (-1, 8, 30)))
        return t.shift_zone(*z) if z else t

    def change(self, admins):
        """Each of the admins tries to change the latest key."""
        w = self.w
        i = len(self.chain)
        old = self.chain[-1]
        keys = []
        for a in admins:
            self.n += 1
            keys.append(Key(10 + self.n if w.chance(0.7) else 1000 - self.n,
                            b'key%d' % self.n, self.when()))
        result = [None] * len(admins)
        # (what the clients of an admin may use from now on)
        self.chain.append(None)

        def go(j):
            a = admins[j]
            k = keys[j]
            a.changing = (i, k.num, k.when)
            res, err = self.attempt(
                'change', lambda: a.cipher.change_key(
                    k.num, k.secret, k.when), csdl.ConstraintError)
            result[j] = err
        ts = [w.spawn(lambda j=j: go(j), 'C%d.%d' % (i, j), group=a.group)
              for j, a in enumerate(admins)]
        for t in ts:
            w.join(t)
        if self.db is not None:
            p = {k: v for k, v in vars(self.db).items()
                 if k.startswith('p_')}
            self.db.calm()
        got = self.stored(old.num)
        for j, a in enumerate(admins):
            if result[j] is None and got != keys[j].num:
                raise Violation('lost', 'the change by %s to key %d was '
                                'done, recorded is %r' % (
                                    a.name, keys[j].num, got))
        if got is None:
            # nothing happened
            w.probe('no-change')
            if self.db is None or not self.faulty:
                raise Violation('refused', 'no change of the key: %r' %
                                result)
            self.chain.pop()
            for a, k in zip(admins, keys):
                a.changing = None
            vars(self.db).update(p)
            return False
        for j, a in enumerate(admins):
            k = keys[j]
            if k.num == got:
                self.chain[i] = k
                self.nums[k.num] = i
                if result[j] is not None:
                    # try again
                    w.probe('again')
                    res, err = self.attempt(
                        'again', lambda: a.cipher.change_key(
                            k.num, k.secret, k.when))
                a.config = (i, k.num, k.when)
            else:
                w.probe('lost-race')
            a.changing = None
        if self.db is not None:
            vars(self.db).update(p)
        return True

    faulty = False

    def restart(self, x):
        """With the latest key."""
        w = self.w
        i = len(self.chain) - 1
        k = self.chain[i]
        when = k.when
        if time.time() > when.get_unixtime() and w.chance(0.5):
            when = None
        for n in range(20):
            c, err = self.attempt('start', lambda: self.cls(
                k.num, k.secret, x.keys, when))
            if err is None:
                # (threads that are busy go on with the old one)
                x.cipher, x.config = c, (i, k.num, when)
                return

    def admin(self, n, race):
        w = self.w
        for j in range(n):
            w.sleep(w.pick((0.0, 0.2, 1.0)))
            newest = [x for x in self.instances
                      if x.config[0] == len(self.chain) - 1]
            m = 2 if len(newest) > 1 and w.chance(race) else 1
            if self.change(newest[:m]):
                others = [x for x in self.instances
                          if x.config[0] < len(self.chain) - 1]
                for x in others:
                    if w.chance(0.3):
                        w.sleep(w.pick((0.1, 0.5, 2.0)))
                    if w.chance(0.8):
                        w.join(w.spawn(lambda: self.restart(x), 'R%s%d' % (
                            x.name, j), group=x.group))
            left = self.chain[-1].when
            if left is not None:
                # one change at a time
                left = left.get_unixtime() - time.time()
                if left >= 0:
                    w.sleep(left + 0.01)


def go(w, site, race):
    ts = []
    for x in site.instances:
        for j in range(w.between(1, 2)):
            ts.append(w.spawn(
                lambda x=x: site.client(x, w.between(3, 10)),
                '%s.%d' % (x.name, j), group=x.group))
    ts.append(w.spawn(lambda: site.admin(w.between(1, 4), race), 'admin',
                      group='admin'))
    for t in ts:
        w.join(t)
    if site.db is not None:
        site.db.calm()

    for i in site.items:
        if i.num not in site.nums:
            raise Violation('key', '%s used key %d that was never recorded'
                            % (i.kind, i.num))

    def last():
        for x in site.instances:
            site.restart(x)
            for i in list(site.items):
                site.items, keep = [i], site.items
                site.read(x)
                site.items = keep
    if len(site.chain) > 1:
        w.join(w.spawn(last, 'last', group='last'))


def memory(w):
    w.randomize_sched(line_mean=(0, 5, 20, 60))
    go(w, Site(w, 'mem', w.between(1, 2)), 0.5)


def sql(w):
    w.randomize_sched(line_mean=(0, 20, 60))
    site = Site(w, 'sql', w.between(1, 3), max_connections=w.pick((1, 10)))
    if w.chance(0.4):
        site.faulty = True
        db = site.db
        db.p_read = w.pick((0.0, 0.05))
        db.p_write = w.pick((0.0, 0.2))
        db.p_busy = w.pick((0.0, 0.1))
        db.p_commit = w.pick((0.0, 0.3))
        db.p_unknown = w.pick((0.0, 0.2))
    go(w, site, 0.4)


CHECK = Check(
    'C19',
    [Scenario('memory', memory, quick=1000),
     Scenario('sql', sql, quick=600)],
    rule='every item is read as it was written by every instance that has '
         'its key or a later one; keys are used only when they are in '
         'effect; no signature is accepted for a message that was not '
         'signed; a key change is recorded before it has any effect',
    real=['pyslet.wsgi.AppCipher, AESAppCipher', 'pyslet.odata2.memds',
          'pyslet.odata2.sqlds on the sqlite3 library'],
    stub=['the AES block cipher (library not installed)',
          'sqlite3.connect passes through a seam; processes are groups of '
          'threads with their own containers'],
    faults=['sql-read-error', 'sql-write-error', 'sql-write-busy',
            'commit-error', 'commit-unknown'],
    line_files=['pyslet/wsgi.py'],
    assumptions=['a key is changed only after the previous change has come '
                 'into effect, by an instance that has the latest key'],
    probes=['failed', 'again', 'lost-race', 'no-change', 'refused'])
