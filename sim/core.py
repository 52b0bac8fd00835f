"""Deterministic simulator core.

One World = one simulated execution.  Real Python threads are parked and
released one at a time: exactly one simulated thread holds the baton, and at
every simulator primitive (lock, condition, event, queue, sleep, clock read,
socket, file or SQL operation) and at randomly chosen source lines of the code
under test, the seeded scheduler decides who runs next.  Time is virtual.

Every decision is drawn through Choices, which records it; a run is a pure
function of its recorded choices, so a list of choices *is* the replay file.
The value 0 always means the plainest alternative (do not switch, no fault,
smallest argument), so that minimisation can simply lower or drop choices.
"""

import _thread
import hashlib
import heapq
import os
import random as _random
import sys
import traceback

_allocate_lock = _thread.allocate_lock
_start_new_thread = _thread.start_new_thread
_real_ident = _thread.get_ident

SIM_DIR = os.path.dirname(os.path.abspath(__file__)) + os.sep

WORLD = None            # the current World, None outside simulation

EPOCH = 1700000000.0    # virtual time origin (UTC 2023-11-14T22:13:20Z)


class Violation(BaseException):
    """A property does not hold in this execution."""

    def __init__(self, kind, message, **detail):
        BaseException.__init__(self, "%s: %s" % (kind, message))
        self.kind = kind
        self.message = message
        self.detail = detail


class SimExit(BaseException):
    """Unwinds a simulated thread (used for simulated thread death)."""


class Choices(object):

    """Source and record of every decision, in independent named streams."""

    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.replay = replay
        self.rngs = {}
        self.pos = {}
        self.log = {}
        self.bounds = {}

    def _stream(self, label):
        log = self.log.get(label)
        if log is None:
            log = self.log[label] = []
            self.pos[label] = 0
            if self.replay is None:
                h = hashlib.sha256(
                    ("%s/%s" % (self.seed, label)).encode()).digest()
                self.rngs[label] = _random.Random(int.from_bytes(h[:8], 'big'))
        return log

    def _next(self, label):
        src = self.replay.get(label, ())
        p = self.pos[label]
        self.pos[label] = p + 1
        return src[p] if p < len(src) else 0

    def draw(self, label, n):
        """An integer in [0, n)."""
        log = self._stream(label)
        if self.replay is not None:
            v = self._next(label)
            if v >= n:
                v = v % n if n > 0 else 0
        else:
            v = self.rngs[label].randrange(n) if n > 1 else 0
        log.append(v)
        return v

    def weighted(self, label, weights):
        """Index drawn with the given integer weights."""
        log = self._stream(label)
        n = len(weights)
        if self.replay is not None:
            v = self._next(label)
            if v >= n:
                v = v % n
            while not weights[v] and any(weights):
                # (a minimised trace never takes an impossible choice)
                v = (v + 1) % n
        else:
            r = self.rngs[label].random() * sum(weights)
            v = 0
            for v in range(n):
                r -= weights[v]
                if r < 0:
                    break
        log.append(v)
        return v

    def chance(self, label, p):
        log = self._stream(label)
        if self.replay is not None:
            v = 1 if self._next(label) else 0
        else:
            v = 1 if (p > 0 and self.rngs[label].random() < p) else 0
        log.append(v)
        return bool(v)

    def stay_or(self, label, p, n):
        """0 with probability 1-p, otherwise uniform in 1..n."""
        log = self._stream(label)
        if self.replay is not None:
            v = self._next(label)
            if v > n:
                v = (v % (n + 1)) if n else 0
        else:
            rng = self.rngs[label]
            v = 0
            if n and rng.random() < p:
                v = 1 + rng.randrange(n)
        log.append(v)
        return v

    def gap(self, label, mean):
        """Number of events until the next occurrence; 0 means never."""
        log = self._stream(label)
        if self.replay is not None:
            v = self._next(label)
        elif not mean:
            v = 0
        else:
            v = 1 + int(self.rngs[label].expovariate(1.0 / mean))
        log.append(v)
        return v

    def raw(self, label, value):
        """Record a value computed from the stream's generator."""
        log = self._stream(label)
        if self.replay is not None:
            v = self._next(label)
        else:
            v = value(self.rngs[label])
        log.append(v)
        return v


READY, RUNNING, BLOCKED, DONE, DEAD = 'ready', 'running', 'blocked', 'done', 'dead'


class SimThreadState(object):

    def __init__(self, world, fn, name, daemon=False, group=None):
        self.world = world
        self.fn = fn
        self.name = name
        self.daemon = daemon
        self.group = group
        self.state = READY
        self.baton = _allocate_lock()
        self.baton.acquire()
        world.next_tid += 1
        self.tid = world.next_tid
        self.ident = world.new_ident(self.tid)
        self.started = False
        self.wait_on = None
        self.timed_out = False
        self.timer = 0
        self.joiners = []
        self.exc = None
        self.pythread = None
        self.real = None
        self.nopreempt = 0


class World(object):

    MAX_STEPS = 400000
    MAX_LINES = 4000000
    MAX_RUN = 1500

    def __init__(self, choices, report, config=None):
        self.ch = choices
        self.report_fn = report
        self.now = EPOCH
        self.skew = 0.0
        self.threads = []
        self.ready = []
        self.timers = []
        self.tseq = 0
        self.next_tid = 0
        self.current = None
        self.steps = 0
        self.lines = 0
        self.switches = 0
        self.last_switch = 0
        self.events = []          # history events (app level)
        self.faults = {}
        self.probes = {}
        self.sched_hash = 0
        self.stall_total = 0.0
        self.finished = False
        self.config = config or {}
        self.p_switch = 0.0
        self.line_mean = 0
        self.line_left = 0
        self.p_stall = 0.0
        self.stall_max = 0.0
        self.tick = 1e-6
        self.on_deadlock = None
        self.by_real = {}
        self.quiet = 0            # >0: no preemption (harness sections)
        self.trace = None         # list when tracing (replay)
        self.tags = {}
        self.sig_prefix = ''

    # ------------------------------------------------------------ config
    def randomize_sched(self, p_switch=(0.0, 0.02, 0.1, 0.3, 0.6),
                        line_mean=(0, 0, 20, 60, 200, 800), p_stall=(0.0,),
                        stall_max=0.05):
        """Swarm: choose this run's scheduling temperament."""
        self.p_switch = p_switch[self.ch.draw('cfg', len(p_switch))]
        self.line_mean = line_mean[self.ch.draw('cfg', len(line_mean))]
        self.p_stall = p_stall[self.ch.draw('cfg', len(p_stall))]
        self.stall_max = stall_max
        self._next_gap()

    def _next_gap(self):
        if self.line_mean:
            g = self.ch.gap('line', self.line_mean)
            self.line_left = g if g else 1 << 60
        else:
            self.line_left = 1 << 60

    # ------------------------------------------------------------ drawing
    def draw(self, n, label='ops'):
        return self.ch.draw(label, n)

    def pick(self, seq, label='ops'):
        return seq[self.ch.draw(label, len(seq))]

    def weighted(self, pairs, label='ops'):
        """pairs: list of (weight, value)"""
        i = self.ch.weighted(label, [p[0] for p in pairs])
        return pairs[i][1]

    def chance(self, p, label='ops'):
        if p <= 0 or p >= 1:
            return p >= 1
        return self.ch.chance(label, p)

    def between(self, lo, hi, label='ops'):
        return lo + self.ch.draw(label, hi - lo + 1)

    def fault(self, kind, p, label='fault'):
        """Decide whether a fault fires here; counts those that do."""
        if p <= 0:
            return False
        if self.ch.chance(label, p):
            self.count_fault(kind)
            return True
        return False

    def count_fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        if self.trace is not None:
            self.note('FAULT ' + kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, text):
        if self.trace is not None:
            t = self.current
            self.trace.append('%12.6f %-14s %s' % (
                self.now - EPOCH, t.name if t else '-', text))

    def log(self, *ev):
        """Append to the recorded history (global order)."""
        self.events.append((self.steps, round(self.now - EPOCH, 6),
                            self.current.name if self.current else '-') + ev)
        if self.trace is not None:
            self.note(' '.join(str(e)[:200] for e in ev))

    # ------------------------------------------------------------ threads
    def me(self):
        """The simulated thread that is running, None elsewhere."""
        c = self.current
        if c is not None and c.real == _real_ident():
            return c
        return None

    def new_ident(self, tid):
        """A thread identifier, perhaps that of a thread that ended."""
        if self.tags.get('reuse_idents'):
            used = set(t.ident for t in self.threads
                       if t.state not in (DONE, DEAD))
            free = [t.ident for t in self.threads if t.ident not in used]
            if free and self.fault('ident-reused', 0.7):
                return free[-1]
        return 100000 + tid * 16

    def spawn(self, fn, name=None, daemon=False, group=None, *args):
        t = SimThreadState(self, fn, name or 'T%d' % (self.next_tid + 1),
                           daemon, group)
        if group is None and self.current is not None:
            t.group = self.current.group
        t.args = args
        self.threads.append(t)
        t.state = READY
        self.ready.append(t)
        _start_new_thread(self._boot, (t,))
        t.started = True
        self.note('spawn ' + t.name)
        return t

    def _boot(self, t):
        t.baton.acquire()
        t.real = _real_ident()
        try:
            t.fn(*t.args)
        except SimExit:
            pass
        except Violation as v:
            self.finish_violation(v)
        except BaseException as e:   # noqa
            t.exc = e
            self.thread_failed(t, e)
        self._thread_end(t)

    def thread_failed(self, t, e):
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if self.trace is not None:
            self.note('thread died: ' + tb)
        self.probe('thread-uncaught-exception')
        handler = self.tags.get('on_thread_exception')
        if handler is not None:
            try:
                handler(t, e, tb)
            except Violation as v:
                self.finish_violation(v)
            return
        frames = traceback.extract_tb(e.__traceback__)
        # an exception that starts in the simulator itself, with no code
        # under test on the stack, is a fault of the harness
        under_test = any('/pyslet/' in f.filename for f in frames) or (
            not frames[-1].filename.startswith(SIM_DIR))
        if under_test:
            self.finish_violation(Violation(
                'uncaught-exception', '%s in thread %s: %s' % (
                    type(e).__name__, t.name, e), traceback=tb))
        else:
            self.finish('harness-error', error=tb)

    def _thread_end(self, t):
        t.state = DONE
        for j in t.joiners:
            self.wake(j)
        t.joiners = []
        self.note('thread end')
        self._dispatch(t, ended=True)

    def kill_group(self, group):
        """Simulated process crash: the group's threads never run again."""
        n = 0
        for t in self.threads:
            if t.group == group and t.state not in (DONE, DEAD) and \
                    t is not self.current:
                self.kill_thread(t)
                n += 1
        return n

    def die(self):
        """The process of the running thread crashes; does not return."""
        t = self.current
        self.kill_group(t.group)
        self.kill_thread(t)
        self._dispatch(t, ended=True)

    def scratch(self):
        """A directory of this run, removed after it."""
        from . import runner
        n = self.scratches = getattr(self, 'scratches', 0) + 1
        d = os.path.join(runner.SCRATCH, str(os.getpid()), str(n))
        # (not part of the simulation)
        fs = self.__dict__.pop('fs', None)
        os.makedirs(d)
        if fs is not None:
            self.fs = fs
        return d

    def kill_thread(self, t):
        if t.state not in (DONE, DEAD):
            t.state = DEAD
            if t in self.ready:
                self.ready.remove(t)
            for j in t.joiners:
                self.wake(j)
            t.joiners = []

    # ------------------------------------------------------------ scheduling
    def wake(self, t, timed_out=False):
        if t.state == BLOCKED:
            t.state = READY
            t.timed_out = timed_out
            t.wait_on = None
            t.timer += 1
            self.ready.append(t)
            return True
        return False

    def add_timer(self, delay, thread):
        self.tseq += 1
        heapq.heappush(self.timers,
                       (self.now + max(0.0, delay), self.tseq, thread.timer,
                        thread, None))

    def call_later(self, delay, fn):
        self.tseq += 1
        heapq.heappush(self.timers,
                       (self.now + max(0.0, delay), self.tseq, 0, None, fn))

    def _fire_timers(self):
        timers = self.timers
        while timers and timers[0][0] <= self.now:
            _, _, gen, th, fn = heapq.heappop(timers)
            if fn is not None:
                fn()
            elif th.timer == gen and th.state == BLOCKED:
                self.wake(th, True)

    def block(self, why, timeout=None):
        """Block the running thread until woken or timed out.

        Returns True if woken, False on time-out."""
        t = self.current
        self.steps += 1
        t.state = BLOCKED
        t.wait_on = why
        t.timed_out = False
        t.timer += 1
        if timeout is not None:
            # a timed wait never returns before its time and always a
            # little after it, like a real one
            self.add_timer(max(0.0, timeout) + self.tick * 3, t)
        self._dispatch(t)
        return not t.timed_out

    def step_cost(self):
        self.steps += 1
        self.now += self.tick
        if self.steps > self.MAX_STEPS:
            self.finish_livelock('steps')
        if self.timers and self.timers[0][0] <= self.now:
            self._fire_timers()

    def yield_point(self, what=''):
        """A place where another thread may run."""
        t = self.me()
        if t is None:
            return
        self.step_cost()
        if self.quiet or t.nopreempt:
            return
        if self.p_stall and self.ch.chance('stall', self.p_stall):
            d = self.stall_max * (1 + self.ch.draw('stall', 100)) / 100.0
            self.count_fault('thread-stall')
            self.stall_total += d
            self.note('stalled %.3fs' % d)
            self.block('stall', d)
            return
        n = len(self.ready)
        if n:
            k = self.ch.stay_or('sched', self.p_switch, n)
            if not k and self.steps - self.last_switch > self.MAX_RUN:
                # fairness: a spinning thread does not starve the others
                k = 1 + self.ch.draw('sched', n)
            if k:
                self._switch_to(t, self.ready[k - 1])

    def _switch_to(self, t, nt):
        t.state = READY
        self.ready.remove(nt)
        self.ready.append(t)
        self._run(t, nt)

    def line_event(self):
        # called for each source line of code under test
        self.lines += 1
        self.line_left -= 1
        if self.line_left <= 0:
            t = self.me()
            if t is None or self.quiet or t.nopreempt:
                self.line_left = 1
                return
            self._next_gap()
            if self.ready:
                self.steps += 1
                self.now += self.tick
                self.probes['line-preemption'] = \
                    self.probes.get('line-preemption', 0) + 1
                k = self.ch.draw('sched', len(self.ready))
                self._switch_to(t, self.ready[k])
        elif self.lines > self.MAX_LINES:
            if self.me() is not None:
                self.finish_livelock('lines')

    def _run(self, t, nt):
        """Hand the baton from t (READY/BLOCKED/DONE) to nt."""
        self.switches += 1
        self.last_switch = self.steps
        self.sched_hash = (self.sched_hash * 1000003 + nt.tid * 7919 +
                           (self.steps & 0xffff)) & 0xffffffffffffffff
        nt.state = RUNNING
        self.current = nt
        nt.baton.release()
        if t.state != DONE:
            t.baton.acquire()

    def _dispatch(self, t, ended=False):
        """Choose the next thread to run; t cannot continue."""
        while True:
            if self.steps > self.MAX_STEPS:
                self.finish_livelock('steps')
            if self.timers and self.timers[0][0] <= self.now:
                self._fire_timers()
            n = len(self.ready)
            if n:
                k = self.ch.draw('sched', n)
                nt = self.ready.pop(k)
                if nt is t and not ended:
                    t.state = RUNNING
                    self.current = t
                    return
                self._run(t, nt)
                return
            # nobody ready: advance time
            timers = self.timers
            while timers:
                at, _, gen, th, fn = timers[0]
                if fn is None and (th.timer != gen or th.state != BLOCKED):
                    heapq.heappop(timers)
                    continue
                break
            if not timers:
                self.steps += 1
                self._deadlock(t)
                return
            self.steps += 1
            self.now = max(self.now, timers[0][0])
            self._fire_timers()

    def _deadlock(self, t):
        desc = [(x.name, str(x.wait_on)) for x in self.threads
                if x.state == BLOCKED]
        live = [x for x in self.threads
                if x.state == BLOCKED and not x.daemon]
        h = self.on_deadlock
        if h is not None:
            self.on_deadlock = None
            try:
                h(desc)
            except Violation as v:
                self.finish_violation(v)
            if self.ready:
                return self._dispatch(t, ended=(t.state == DONE))
        if not live:
            self.finish('ok')
        self.finish_violation(Violation(
            'deadlock', 'threads blocked for ever: ' + ', '.join(
                '%s on %s' % d for d in desc)))

    def blocked_desc(self):
        return ', '.join('%s on %s' % (x.name, x.wait_on)
                         for x in self.threads if x.state == BLOCKED)

    def join(self, t, timeout=None):
        """Wait for a simulated thread; True if it ended."""
        self.yield_point('join')
        if t.state in (DONE, DEAD):
            return True
        t.joiners.append(self.current)
        ok = self.block('join ' + t.name, timeout)
        if not ok and self.current in t.joiners:
            t.joiners.remove(self.current)
        return t.state in (DONE, DEAD)

    def sleep(self, d):
        self.block('sleep', max(0.0, d))

    # ------------------------------------------------------------ the end
    def result(self, outcome, **kw):
        r = dict(outcome=outcome, steps=self.steps, lines=self.lines,
                 switches=self.switches, sim=self.now - EPOCH,
                 faults=self.faults, probes=self.probes,
                 shash='%016x' % self.sched_hash, seed=self.ch.seed,
                 ndraws=sum(len(v) for v in self.ch.log.values()),
                 nthreads=len(self.threads))
        h = hashlib.sha256()
        for label in sorted(self.ch.log):
            h.update(label.encode())
            h.update(','.join(map(str, self.ch.log[label])).encode())
        for e in self.events:
            h.update(repr(e).encode('utf-8', 'backslashreplace'))
        r['thash'] = h.hexdigest()[:24]
        r['nevents'] = len(self.events)
        if self.trace is not None:
            r['trace'] = self.trace
        r.update(kw)
        return r

    def finish(self, outcome, **kw):
        """End the simulation: reports and leaves the process."""
        if self.finished:
            while True:
                _allocate_lock().acquire()
        self.finished = True
        self.report_fn(self.result(outcome, **kw))
        os._exit(0)

    def finish_violation(self, v):
        import traceback as tb
        self.note('VIOLATION ' + str(v))
        detail = {}
        for k, x in v.detail.items():
            detail[k] = x if isinstance(x, (str, int, float, list, dict)) \
                else repr(x)
        if v.__traceback__ is not None and 'traceback' not in detail:
            detail['raised_at'] = ''.join(
                tb.format_tb(v.__traceback__)[-3:])
        self.finish('violation', kind=self.sig_prefix + v.kind,
                    message=v.message, detail=detail, choices=self.ch.log,
                    history=[repr(e) for e in self.events[-60:]])

    def finish_livelock(self, what):
        h = self.tags.get('on_livelock')
        t = self.current
        where = ''
        if t is not None and t.real == _real_ident():
            where = ' > '.join(
                '%s:%s' % (f.name, f.lineno)
                for f in traceback.extract_stack(sys._getframe(1))
                if '/pyslet/' in f.filename)
        v = Violation('no-progress', 'run did not end within %d %s; running '
                      'thread %s at %s; blocked: %s' % (
                          self.MAX_STEPS if what == 'steps' else
                          self.MAX_LINES, what, t.name if t else '-', where,
                          self.blocked_desc()))
        if h is not None:
            try:
                h(v)
            except Violation as v2:
                v = v2
        self.finish_violation(v)
