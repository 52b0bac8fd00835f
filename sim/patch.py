"""Replaces the process's sources of nondeterminism by simulated ones.

install() must run before pyslet is imported, so that every way of importing
these names is covered.  Outside a simulation (no World) the primitives work
as single-threaded ones and time is frozen at the epoch.
"""
import os
import queue
import random
import sys
import threading
import time

from . import core

_real = {}
SINGLE = object()


def _w():
    w = core.WORLD
    if w is not None and w.me() is not None:
        return w
    return None


def _ident():
    w = core.WORLD
    if w is not None:
        t = w.me()
        if t is not None:
            return t
    return SINGLE


# --------------------------------------------------------------- locks
class Lock(object):

    def __init__(self):
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        w = _w()
        if w is None:
            if self._owner is not None:
                if not blocking:
                    return False
                raise RuntimeError("lock would block outside simulation")
            self._owner = SINGLE
            return True
        w.yield_point('acquire')
        me = w.current
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = w.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            left = None
            if deadline is not None:
                left = deadline - w.now
                if left <= 0:
                    return False
            self._waiters.append(me)
            w.block('Lock', left)
            if me in self._waiters:
                self._waiters.remove(me)
        self._owner = me
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        ws, self._waiters = self._waiters, []
        w = core.WORLD
        if w is not None:
            for t in ws:
                w.wake(t)
            if w.me() is not None:
                w.yield_point('release')

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._waiters = []


class RLock(object):

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        w = core.WORLD if me is not SINGLE else None
        if self._owner is me:
            self._count += 1
            return True
        if w is None:
            if self._owner is not None:
                if not blocking:
                    return False
                raise RuntimeError("lock would block outside simulation")
            self._owner = me
            self._count = 1
            return True
        w.yield_point('acquire')
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = w.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            left = None
            if deadline is not None:
                left = deadline - w.now
                if left <= 0:
                    return False
            self._waiters.append(me)
            w.block('RLock', left)
            if me in self._waiters:
                self._waiters.remove(me)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        me = _ident()
        if self._owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            ws, self._waiters = self._waiters, []
            w = core.WORLD
            if w is not None:
                for t in ws:
                    w.wake(t)
                if w.me() is not None:
                    w.yield_point('release')

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner is _ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        ws, self._waiters = self._waiters, []
        w = core.WORLD
        if w is not None:
            for t in ws:
                w.wake(t)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0
        self._waiters = []


class Condition(object):

    def __init__(self, lock=None):
        if lock is None:
            lock = RLock()
        self._lock = lock
        self.acquire = lock.acquire
        self.release = lock.release
        self._cwaiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *args):
        return self._lock.__exit__(*args)

    def _is_owned(self):
        if hasattr(self._lock, '_is_owned'):
            return self._lock._is_owned()
        return self._lock.locked()

    def wait(self, timeout=None):
        if not self._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        w = _w()
        if w is None:
            raise RuntimeError("condition wait outside simulation")
        me = w.current
        if hasattr(self._lock, '_release_save'):
            st = self._lock._release_save()
        else:
            st = None
            self._lock._owner = None
            ws, self._lock._waiters = self._lock._waiters, []
            for t in ws:
                w.wake(t)
        self._cwaiters.append(me)
        try:
            w.block('Condition.wait', timeout)
        finally:
            got = me not in self._cwaiters
            if not got:
                self._cwaiters.remove(me)
            if st is not None:
                self._lock._acquire_restore(st)
            else:
                self._lock.acquire()
        return got

    def wait_for(self, predicate, timeout=None):
        endtime = None
        result = predicate()
        while not result:
            left = None
            if timeout is not None:
                if endtime is None:
                    endtime = monotonic() + timeout
                left = endtime - monotonic()
                if left <= 0:
                    break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        if not self._is_owned():
            raise RuntimeError("cannot notify on un-acquired lock")
        w = core.WORLD
        while n > 0 and self._cwaiters:
            i = 0
            if len(self._cwaiters) > 1 and w is not None and n < len(
                    self._cwaiters):
                i = w.ch.draw('notify', len(self._cwaiters))
            t = self._cwaiters.pop(i)
            if t.state == core.DEAD:
                continue
            w.wake(t)
            n -= 1

    def notify_all(self):
        self.notify(len(self._cwaiters))

    notifyAll = notify_all


class Event(object):

    def __init__(self):
        self._flag = False
        self._ewaiters = []

    def is_set(self):
        w = _w()
        if w is not None:
            w.yield_point('Event.is_set')
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        w = core.WORLD
        ws, self._ewaiters = self._ewaiters, []
        if w is not None:
            for t in ws:
                w.wake(t)
            if w.me() is not None:
                w.yield_point('Event.set')

    def clear(self):
        w = _w()
        if w is not None:
            w.yield_point('Event.clear')
        self._flag = False

    def wait(self, timeout=None):
        w = _w()
        if w is None:
            return self._flag
        w.yield_point('Event.wait')
        if self._flag:
            return True
        me = w.current
        self._ewaiters.append(me)
        woken = w.block('Event.wait', timeout)
        if me in self._ewaiters:
            self._ewaiters.remove(me)
        # like threading: a wait released by set() reports True
        return woken or self._flag

    def _at_fork_reinit(self):
        self._ewaiters = []


class Semaphore(object):

    def __init__(self, value=1):
        if value < 0:
            raise ValueError("semaphore initial value must be >= 0")
        self._cond = Condition(Lock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            if not blocking and self._value == 0:
                return False
            if not self._cond.wait_for(lambda: self._value > 0, timeout):
                return False
            self._value -= 1
            return True

    __enter__ = acquire

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __exit__(self, *args):
        self.release()


class BoundedSemaphore(Semaphore):

    def __init__(self, value=1):
        Semaphore.__init__(self, value)
        self._initial = value

    def release(self, n=1):
        if self._value + n > self._initial:
            raise ValueError("Semaphore released too many times")
        Semaphore.release(self, n)


class Thread(object):

    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        Thread._counter += 1
        self._name = str(name) if name else 'Thread-%d' % Thread._counter
        self._daemon = bool(daemon)
        self._st = None
        self._started = False

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._started:
            raise RuntimeError("threads can only be started once")
        w = core.WORLD
        if w is None:
            raise RuntimeError("can't start thread outside simulation")
        hook = w.tags.get('on_thread_start')
        if hook is not None:
            hook(self)
        self._started = True
        self._st = w.spawn(self.run, self._name, self._daemon)
        self._st.pythread = self
        w.yield_point('Thread.start')

    def join(self, timeout=None):
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        w = core.WORLD
        if self._st is w.current:
            raise RuntimeError("cannot join current thread")
        w.join(self._st, timeout)

    def is_alive(self):
        w = _w()
        if w is not None:
            w.yield_point('is_alive')
        return self._started and self._st.state not in (
            core.DONE, core.DEAD)

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, n):
        self._name = str(n)

    def getName(self):
        return self._name

    def setName(self, n):
        self._name = n

    @property
    def ident(self):
        return self._st.ident if self._st else None

    native_id = ident

    @property
    def daemon(self):
        return self._daemon

    @daemon.setter
    def daemon(self, v):
        self._daemon = bool(v)

    def isDaemon(self):
        return self._daemon

    def setDaemon(self, v):
        self._daemon = bool(v)


class Timer(Thread):

    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def current_thread():
    w = core.WORLD
    if w is not None:
        t = w.me()
        if t is not None:
            if t.pythread is None:
                p = Thread.__new__(Thread)
                p._target = None
                p._args = ()
                p._kwargs = {}
                p._name = t.name
                p._daemon = t.daemon
                p._st = t
                p._started = True
                t.pythread = p
            return t.pythread
    return _real['current_thread']()


def get_ident():
    w = core.WORLD
    if w is not None:
        t = w.me()
        if t is not None:
            return t.ident
    return _real['get_ident']()


# --------------------------------------------------------------- time
def _skew(w):
    sk = w.tags.get('skew')
    if sk:
        return sk.get(w.current.group, 0.0) if w.current else 0.0
    return 0.0


def sim_time():
    w = core.WORLD
    if w is None:
        return core.EPOCH
    if w.me() is not None:
        w.yield_point('time')
    return w.now + _skew(w)


def monotonic():
    w = core.WORLD
    if w is None:
        return 1000.0
    if w.me() is not None:
        w.step_cost()
    return w.now - core.EPOCH + 1000.0


def sleep(d):
    w = _w()
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    if w is not None:
        w.sleep(d)


def gmtime(t=None):
    return _real['gmtime'](sim_time() if t is None else t)


def localtime(t=None):
    return _real['localtime'](sim_time() if t is None else t)


# --------------------------------------------------------------- randomness
def urandom(n):
    w = core.WORLD
    if w is None:
        return b'\x5a' * n
    return w.entropy.getrandbits(8 * n).to_bytes(n, 'big') if n else b''


def seed_entropy(w, k):
    w.entropy = random.Random(k ^ 0x5bd1e995)
    random.seed(k)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert not any(m == 'pyslet' or m.startswith('pyslet.')
                   for m in sys.modules), 'pyslet imported too early'
    for k in ('current_thread', 'get_ident'):
        _real[k] = getattr(threading, k)
    for k in ('time', 'sleep', 'monotonic', 'gmtime', 'localtime'):
        _real[k] = getattr(time, k)
    _real['Thread'] = threading.Thread
    threading.Lock = Lock
    threading.RLock = RLock
    threading.Condition = Condition
    threading.Event = Event
    threading.Semaphore = Semaphore
    threading.BoundedSemaphore = BoundedSemaphore
    threading.Thread = Thread
    threading.Timer = Timer
    threading.current_thread = current_thread
    threading.get_ident = get_ident
    time.time = sim_time
    time.sleep = sleep
    time.monotonic = monotonic
    time.perf_counter = monotonic
    time.gmtime = gmtime
    time.localtime = localtime
    queue.time = monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    os.urandom = urandom
    random._urandom = urandom
    os.environ['TZ'] = 'UTC'
    time.tzset()
