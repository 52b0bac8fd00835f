"""Runs scenarios over many seeds, minimises and replays failures, and writes
the evidence."""
import argparse
import gc
import hashlib
import importlib
import json
import logging
import os
import pickle
import select as _select
import shutil
import signal
import subprocess
import sys
import time as _time
import traceback

_wall = _time.time            # captured before patching
_sleep = _time.sleep
_real_select = _select.select
_alloc = None

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

from . import core, patch       # noqa

SCRATCH = os.path.join(
    '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp',
    'pyslet-verif-%d' % os.getpid())


def clear_scratch(pid=None):
    d = SCRATCH if pid is None else os.path.join(SCRATCH, str(pid))
    if os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)


CHILD_ALARM = int(os.environ.get('VERIF_CHILD_ALARM', '60'))


class Scenario(object):

    def __init__(self, name, fn, quick, thorough=None, config=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.config = config or {}


class Check(object):
    """What a checks/cNN.py module registers as CHECK."""

    def __init__(self, pid, scenarios, rule, real, stub, faults=(),
                 line_files=('pyslet/',), line_exclude=(), assumptions=(),
                 quick_wall=240, probes=()):
        self.pid = pid
        self.scenarios = scenarios
        self.rule = rule
        self.real = real
        self.stub = stub
        self.faults = faults
        self.line_files = line_files
        self.line_exclude = line_exclude
        self.assumptions = assumptions
        self.quick_wall = quick_wall
        self.probes = probes


def seed_for(base, pid, scenario, i):
    h = hashlib.sha256(("%s|%s|%s|%d" % (base, pid, scenario, i)).encode())
    return int.from_bytes(h.digest()[:7], 'big')


# ------------------------------------------------------------ one execution
def _child(scenario, seed, replay, trace, wfd):
    """Runs in the forked child; never returns."""
    import _thread
    signal.alarm(CHILD_ALARM)
    gc.disable()
    ch = core.Choices(seed, replay)

    def report(res):
        data = json.dumps(res).encode('utf-8', 'backslashreplace')
        view = memoryview(data)
        while view:
            n = os.write(wfd, view[:65536])
            view = view[n:]
        os.close(wfd)

    w = core.World(ch, report)
    if trace:
        w.trace = []
    patch.seed_entropy(w, ch.raw('entropy', lambda r: r.getrandbits(30)))
    core.WORLD = w

    def main():
        scenario.fn(w)
        if w.tags.get('no_drain'):
            w.finish('ok')

    t = w.spawn(main, 'main')
    w.ready.remove(t)
    t.state = core.RUNNING
    w.current = t
    t.baton.release()
    lock = _thread.allocate_lock()
    lock.acquire()
    lock.acquire()


def start_run(scenario, seed=None, replay=None, trace=False):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            _child(scenario, seed, replay, trace, wfd)
        except BaseException:
            traceback.print_exc()
        os._exit(3)
    os.close(wfd)
    return pid, rfd


def collect(h):
    pid, rfd = h
    parts = []
    while True:
        try:
            d = os.read(rfd, 1 << 20)
        except InterruptedError:
            continue
        if not d:
            break
        parts.append(d)
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    clear_scratch(pid)
    if not parts:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            return dict(outcome='wall-timeout')
        return dict(outcome='crashed', status=st)
    try:
        return json.loads(b''.join(parts))
    except ValueError:
        return dict(outcome='crashed', status=st)


def run_once(scenario, seed=None, replay=None, trace=False):
    return collect(start_run(scenario, seed, replay, trace))


# ------------------------------------------------------------ worker
class Agg(object):

    def __init__(self):
        self.runs = 0
        self.sim = 0.0
        self.steps = 0
        self.lines = 0
        self.switches = 0
        self.faults = {}
        self.probes = {}
        self.shashes = set()
        self.thashes = set()
        self.nontrivial = 0
        self.by_scenario = {}
        self.violations = []
        self.known = {}
        self.errors = []
        self.samples = []
        self.capped = False
        self.maxsteps = 0

    def add(self, scenario, i, seed, r):
        self.runs += 1
        self.by_scenario[scenario] = self.by_scenario.get(scenario, 0) + 1
        self.sim += r.get('sim', 0)
        self.steps += r.get('steps', 0)
        self.lines += r.get('lines', 0)
        self.switches += r.get('switches', 0)
        self.maxsteps = max(self.maxsteps, r.get('steps', 0))
        for k, v in r.get('faults', {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in r.get('probes', {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        if 'shash' in r:
            self.shashes.add(r['shash'])
        if (r.get('switches', 0) >= 3 or sum(
                r.get('faults', {}).values()) > 0) and \
                r.get('nevents', 0) >= 1:
            self.nontrivial += 1
            self.thashes.add(r.get('thash'))

    def merge(self, o):
        self.runs += o.runs
        self.sim += o.sim
        self.steps += o.steps
        self.lines += o.lines
        self.switches += o.switches
        self.maxsteps = max(self.maxsteps, o.maxsteps)
        for k, v in o.faults.items():
            self.faults[k] = self.faults.get(k, 0) + v
        for k, v in o.probes.items():
            self.probes[k] = self.probes.get(k, 0) + v
        for k, v in o.by_scenario.items():
            self.by_scenario[k] = self.by_scenario.get(k, 0) + v
        self.shashes |= o.shashes
        self.thashes |= o.thashes
        self.nontrivial += o.nontrivial
        self.violations += o.violations
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        self.errors += o.errors
        self.samples += o.samples
        self.capped = self.capped or o.capped


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def match_known(known, r):
    for e in known:
        if r.get('kind') == e['kind'] and \
                e.get('message', '') in r.get('message', ''):
            return e
    return None


def worker(check, k, n, base, counts, deadline, known):
    agg = Agg()
    # interleave scenarios
    jobs = []
    for si, sc in enumerate(check.scenarios):
        c = counts[si]
        for i in range(k, c, n):
            jobs.append(((i + 0.5) / c, si, i))
    jobs.sort()
    for _, si, i in jobs:
        if _wall() > deadline:
            agg.capped = True
            break
        sc = check.scenarios[si]
        seed = seed_for(base, check.pid, sc.name, i)
        r = run_once(sc, seed)
        oc = r['outcome']
        if oc in ('wall-timeout', 'crashed'):
            # once more, to tell a loaded machine from a real hang
            r = run_once(sc, seed)
            oc = r['outcome']
            if oc == 'wall-timeout':
                r.update(outcome='violation', kind='hang',
                         message='run did not end within %ds of wall time '
                         '(twice)' % CHILD_ALARM, choices=None, detail={})
                oc = 'violation'
        agg.add(sc.name, i, seed, r)
        if oc == 'violation':
            e = match_known(known, r)
            if e is not None:
                agg.known[e['id']] = agg.known.get(e['id'], 0) + 1
                continue
            agg.violations.append((i, si, seed, r))
            break
        elif oc != 'ok':
            agg.errors.append((sc.name, i, seed, oc, r.get('error', ''),
                               r.get('status')))
            if len(agg.errors) >= 3:
                break
        if len(agg.samples) < 3 and (r.get('nevents', 0) > 2):
            agg.samples.append((sc.name, i, seed))
    return agg


def run_workers(check, base, counts, nworkers, wall, known):
    deadline = _wall() + wall
    handles = []
    for k in range(nworkers):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                agg = worker(check, k, nworkers, base, counts, deadline,
                             known)
                with os.fdopen(wfd, 'wb') as f:
                    pickle.dump(agg, f)
            except BaseException:
                traceback.print_exc()
                code = 4
            os._exit(code)
        os.close(wfd)
        handles.append((pid, rfd))
    total = Agg()
    for pid, rfd in handles:
        with os.fdopen(rfd, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            total.merge(pickle.loads(data))
        else:
            total.errors.append(('worker', 0, 0, 'worker-died', '', None))
    return total


# ------------------------------------------------------------ minimisation
def _same(r, kind):
    return r.get('outcome') == 'violation' and r.get('kind') == kind


def minimise(scenario, choices, kind, budget=500, wall=60, par=8):
    """Greedy reduction of the recorded choices keeping the violation."""
    t_end = _wall() + wall
    best = {k: list(v) for k, v in choices.items()}
    spent = [0]

    def strip(c):
        out = {}
        for k, v in c.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            if v:
                out[k] = v
        return out

    best = strip(best)

    def try_all(cands):
        """Runs candidates in parallel batches; first success or None."""
        i = 0
        while i < len(cands):
            if spent[0] >= budget or _wall() > t_end:
                return None
            batch = cands[i:i + par]
            hs = [start_run(scenario, replay=c) for c in batch]
            rs = [collect(h) for h in hs]
            spent[0] += len(batch)
            for c, r in zip(batch, rs):
                if _same(r, kind):
                    # adopt what the run really used
                    got = strip({k: v for k, v in r['choices'].items()})
                    return got if size(got) <= size(c) else strip(c)
            i += par
        return None

    def size(c):
        return (sum(1 for v in c.values() for x in v if x),
                sum(len(v) for v in c.values()),
                sum(x for v in c.values() for x in v))

    improved = True
    while improved and spent[0] < budget and _wall() < t_end:
        improved = False
        labels = sorted(best, key=lambda k: -len(best[k]))
        # whole streams
        for k in labels:
            if k == 'entropy' or k not in best:
                continue
            c = {x: v for x, v in best.items() if x != k}
            got = try_all([c])
            if got is not None and size(got) < size(best):
                best = got
                improved = True
        for k in labels:
            if k == 'entropy' or k not in best:
                continue
            n = len(best[k])
            blk = max(1, n // 2)
            while blk >= 1 and k in best:
                cands = []
                v = best[k]
                for s in range(0, len(v), blk):
                    if any(v[s:s + blk]):
                        z = v[:s] + [0] * len(v[s:s + blk]) + v[s + blk:]
                        cands.append(strip(dict(best, **{k: z})))
                    if k not in ('sched', 'line', 'stall'):
                        cands.append(strip(dict(best, **{
                            k: v[:s] + v[s + blk:]})))
                cands = [c for c in cands if size(c) < size(best)]
                got = try_all(cands[:64])
                if got is not None and size(got) < size(best):
                    best = got
                    improved = True
                    continue
                if spent[0] >= budget or _wall() > t_end:
                    break
                if blk == 1:
                    break
                blk //= 2
    return best, spent[0]


# ------------------------------------------------------------ main
def setup(check_mod):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    patch.install()
    sys.path.insert(0, REPO)
    mod = importlib.import_module('checks.' + check_mod)
    import pyslet
    real = os.path.realpath(os.path.dirname(pyslet.__file__))
    want = os.path.realpath(os.path.join(REPO, 'pyslet'))
    if real != want:
        raise RuntimeError('pyslet imported from %s, not %s' % (real, want))
    check = mod.CHECK
    from . import monitor
    monitor.install([os.path.join(want, f[len('pyslet/'):])
                     if f != 'pyslet/' else want + os.sep
                     for f in check.line_files],
                    [os.sep + x for x in check.line_exclude])
    # run one seed of each scenario to warm caches before anything forks?
    # No: every run starts from this same state, so no warm-up is needed.
    gc.collect()
    gc.freeze()
    return check


def replay_cmd(check, path, show=True):
    with open(path) as f:
        rec = json.load(f)
    sc = [s for s in check.scenarios if s.name == rec['scenario']][0]
    if rec.get('choices') is None:
        r = run_once(sc, rec['seed'])
        if r['outcome'] == 'wall-timeout':
            r.update(outcome='violation', kind='hang', message='hang')
    else:
        r = run_once(sc, replay=rec['choices'], trace=show)
    if show:
        for line in r.get('trace', []):
            print(line)
    ok = _same(r, rec['kind'])
    print('REPLAY %s: outcome=%s kind=%s message=%s' % (
        'reproduced' if ok else 'NOT reproduced', r.get('outcome'),
        r.get('kind'), r.get('message')))
    if show and r.get('detail'):
        for k, v in r['detail'].items():
            print('  %s: %s' % (k, v))
    if r.get('error'):
        print(r['error'])
    return 1 if ok else 0


def main(argv=None):
    me = os.getpid()
    try:
        return _main(argv)
    finally:
        if os.getpid() == me:
            clear_scratch()


def _main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--quiet-replay', action='store_true')
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--runs', type=float, default=1.0,
                    help='scale factor for run counts')
    ap.add_argument('--scenario')
    ap.add_argument('--one', help='scenario:index, run and show one seed')
    ap.add_argument('--hashes', action='store_true',
                    help='print the hash of every run (determinism test)')
    ap.add_argument('--wall', type=float, default=0)
    ap.add_argument('--no-min', action='store_true')
    args = ap.parse_args(argv)
    t0 = _wall()
    if args.selftest:
        return selftest()
    pid = args.property
    check = setup(pid.lower())
    if args.replay:
        return replay_cmd(check, args.replay, not args.quiet_replay)
    if args.one:
        name, i = args.one.split(':')
        sc = [s for s in check.scenarios if s.name == name][0]
        r = run_once(sc, seed_for(args.seed, pid, name, int(i)), trace=True)
        for line in r.get('trace', []):
            print(line)
        r.pop('trace', None)
        r.pop('choices', None)
        print(json.dumps(r, indent=1))
        for k, v in r.get('detail', {}).items():
            print('%s:\n%s' % (k, v))
        return 0
    if args.scenario:
        check.scenarios = [s for s in check.scenarios
                           if s.name == args.scenario]
    thorough = args.tier == 'thorough'
    counts = [max(1, int((s.thorough if thorough else s.quick) * args.runs))
              for s in check.scenarios]
    nw = args.workers or min(8, os.cpu_count() or 1)
    if args.hashes:
        for si, sc in enumerate(check.scenarios):
            hs = []
            for i in range(counts[si]):
                hs.append((i, start_run(sc, seed_for(
                    args.seed, pid, sc.name, i))))
                if len(hs) >= nw:
                    for j, h in hs:
                        r = collect(h)
                        print(sc.name, j, r['outcome'], r.get('thash'),
                              r.get('shash'), r.get('lines'))
                    hs = []
            for j, h in hs:
                r = collect(h)
                print(sc.name, j, r['outcome'], r.get('thash'),
                      r.get('shash'), r.get('lines'))
        return 0
    wall = args.wall or (check.quick_wall if not thorough else 3600 * 3)
    known = load_known(pid)
    print('%s tier=%s VERIF_SEED=%d runs=%s workers=%d repo=%s' % (
        pid, args.tier, args.seed, dict(zip(
            [s.name for s in check.scenarios], counts)), nw, REPO))
    sys.stdout.flush()
    agg = run_workers(check, args.seed, counts, nw, wall, known)
    vio = sorted(agg.violations, key=lambda v: (v[0], v[1]))
    rc = 0
    replay_path = None
    if vio:
        rc, replay_path = report_violation(check, vio, args)
    for e in known:
        # every listed finding is announced; the count is from this run
        print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (
            pid, e['what'], agg.known.get(e['id'], 0)))
    if agg.errors and rc == 0:
        for e in agg.errors[:3]:
            print('HARNESS-ERROR scenario=%s index=%s seed=%s %s status=%s\n%s'
                  % (e[0], e[1], e[2], e[3], e[5], e[4]))
        rc = 2
    write_evidence(check, args, agg, counts, t0, rc, vio, replay_path)
    dt = _wall() - t0
    print('%s: %d runs, %d distinct non-trivial, %d distinct interleavings, '
          'sim %.0fs, faults %s, wall %.1fs%s -> exit %d' % (
              pid, agg.runs, len(agg.thashes), len(agg.shashes), agg.sim,
              agg.faults, dt, ' (wall cap hit)' if agg.capped else '', rc))
    return rc


def selftest():
    """Same seeds in different processes must give identical executions."""
    bad = 0
    names = sorted(f[:-3].upper() for f in os.listdir(
        os.path.join(VERIF, 'checks')) if len(f) == 6 and
        f.startswith('c') and f[1:3].isdigit() and f.endswith('.py'))
    procs = {}

    def start(pid, workers, hashseed):
        env = dict(os.environ, VERIF_HASHSEED=hashseed)
        return subprocess.Popen(
            [sys.executable, '-W', 'ignore',
             os.path.join(VERIF, 'run_check.py'), pid, '--hashes',
             '--runs', '0.002', '--workers', str(workers), '--seed', '7'],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    for pid in names:
        a, b = start(pid, 4, '0'), start(pid, 2, '0')
        oa, ob = a.communicate()[0], b.communicate()[0]
        same = oa == ob and a.returncode == 0 and oa.strip()
        print('selftest %s: %d runs repeated, %s' % (
            pid, len(oa.splitlines()),
            'identical' if same else 'DIFFERENT'))
        if not same:
            bad += 1
            la, lb = oa.splitlines(), ob.splitlines()
            for x, y in zip(la, lb):
                if x != y:
                    print('   ', x, y)
                    break
            else:
                print(oa[-2000:])
    return 2 if bad else 0


def report_violation(check, vio, args):
    i, si, seed, r = vio[0]
    sc = check.scenarios[si]
    kind = r['kind']
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d.json' % (check.pid, sc.name, seed))
    rec = dict(property=check.pid, scenario=sc.name, seed=seed, index=i,
               kind=kind, message=r['message'], detail=r.get('detail'),
               history=r.get('history'), verif_seed=args.seed, repo=REPO)
    orig = r.get('choices')
    spent = 0
    if orig is not None:
        best = orig
        if not args.no_min:
            best, spent = minimise(sc, orig, kind)
        for cand, what in ((best, 'minimised'), (orig, 'original')):
            rr = run_once(sc, replay=cand, trace=True)
            if _same(rr, kind):
                rec.update(choices=cand, message=rr['message'],
                           detail=rr.get('detail'), minimised=what,
                           history=rr.get('history'),
                           draws=sum(len(v) for v in cand.values()),
                           original_draws=sum(len(v) for v in orig.values()),
                           faults=rr.get('faults'),
                           trace=rr.get('trace', [])[-400:])
                break
        else:
            rec.update(choices=orig, minimised='not reproduced in process')
    else:
        rec['choices'] = None
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    # replay in a fresh interpreter
    cmd = [sys.executable, os.path.join(VERIF, 'run_check.py'), check.pid,
           '--replay', path, '--quiet-replay']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=400)
    if p.returncode != 1 and orig is not None:
        rec['choices'] = orig
        rec['minimised'] = 'original'
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=400)
    print('  kind: %s' % kind)
    print('  message: %s' % rec['message'])
    print('  scenario: %s seed: %d (run %d); %d minimisation runs; '
          '%s draws (from %s)' % (
              sc.name, seed, i, spent, rec.get('draws'),
              rec.get('original_draws')))
    for h in (rec.get('history') or [])[-25:]:
        print('    ' + h[:300])
    if p.returncode == 1:
        print('  replayed in a fresh process: reproduced')
        print('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1, path
    print('HARNESS-NONDETERMINISM: the violation did not replay: %s' %
          p.stdout.decode('utf-8', 'replace')[-2000:])
    return 2, path


def write_evidence(check, args, agg, counts, t0, rc, vio, replay_path):
    dt = max(0.001, _wall() - t0)
    samples = []
    for name, i, seed in agg.samples[:3]:
        sc = [s for s in check.scenarios if s.name == name][0]
        r = run_once(sc, seed, trace=True)
        samples.append(dict(scenario=name, index=i, seed=seed,
                            steps=r.get('steps'), switches=r.get('switches'),
                            sim_seconds=r.get('sim'), faults=r.get('faults'),
                            trace=[x[:160] for x in
                                   r.get('trace', [])[:60]]))
    cov = dict(
        evaluations=agg.runs,
        distinct_nontrivial=len(agg.thashes),
        rule=check.rule + ' One case is one simulated run, decided by one '
        'seed. A run is non-trivial when at least three context switches '
        'happened or at least one fault fired, and at least one operation '
        'was recorded; two runs are distinct when the hash of all their '
        'decisions and of their operation history differs.',
        samples=samples,
        nontrivial_runs=agg.nontrivial,
        runs_by_scenario=agg.by_scenario,
        seeds_per_hour=int(agg.runs * 3600 / dt),
        simulated_seconds=round(agg.sim, 3),
        simulated_seconds_per_wall_second=round(agg.sim / dt, 3),
        scheduler_steps=agg.steps,
        source_lines_executed=agg.lines,
        context_switches=agg.switches,
        distinct_interleavings=len(agg.shashes),
        interleaving_measure='hash of the sequence of (thread, step) context '
        'switches of a run',
        faults_injected=agg.faults,
        fault_kinds_never_fired=[f for f in check.faults
                                 if f not in agg.faults],
        probes=agg.probes,
        probes_never_hit=[p for p in check.probes if p not in agg.probes],
        components_real=list(check.real),
        components_stubbed=list(check.stub),
        known_findings_hit=agg.known,
        wall_cap_hit=agg.capped,
        harness_errors=len(agg.errors))
    if vio:
        cov['violation'] = dict(kind=vio[0][3]['kind'],
                                message=vio[0][3]['message'],
                                replay=replay_path)
    ev = dict(property=check.pid, tier='thorough' if args.tier == 'thorough'
              else 'quick', seed=args.seed, level='exploration',
              coverage=cov, assumptions=list(check.assumptions),
              wall_s=round(dt, 3), violations=len(vio))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % check.pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, '%s.json' % check.pid))
