"""Verdicts, evidence, parallel workers, watchdogs."""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
EVIDENCE = os.environ.get('PV_EVIDENCE', os.path.join(ROOT, 'evidence'))
NPROC = max(1, min(8, os.cpu_count() or 1))


class Hang(BaseException):
    """CPU watchdog fired inside one observed operation."""


class cpu_limit(object):
    """Raise Hang after `seconds` of CPU time spent in the block (not wall-clock)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def fire(*_):
            raise Hang()
        self.old = signal.signal(signal.SIGPROF, fire)
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)
        return False


def derive(seed, *tags):
    h = hashlib.sha256(repr((seed,) + tags).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def digest(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
    return h.hexdigest()[:16]


class Result(object):
    """What one worker observed."""

    def __init__(self):
        self.evals = 0
        self.seen = set()
        self.violations = []
        self.samples = []
        self.notes = {}
        self.inconclusive = []

    def observe(self, key, trivial=False):
        self.evals += 1
        if not trivial:
            self.seen.add(key)

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def violation(self, key, what, **replay):
        self.note('violation:' + key)
        if sum(1 for v in self.violations if v['key'] == key) < 3:
            self.violations.append({'key': key, 'what': what, 'replay': replay})

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)


def _jsonable(o):
    if isinstance(o, bytes):
        return o.hex()
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


def _child(conn, fn, args, mem):
    try:
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setpgid(0, 0)
        res = fn(*args)
        conn.send(('ok', res))
    except BaseException:
        conn.send(('err', traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def run_tasks(fn, tasks, timeout=600, nproc=None, mem=6 << 30, deadline=None, on_result=None):
    """Run fn(*task) for each task in its own forked process. Returns (task index, status, payload) where
    status is ok | err | timeout | died | skipped. on_result(status, payload) may return True to skip what is left."""
    nproc = nproc or NPROC
    ctx = multiprocessing.get_context('fork')
    todo = list(enumerate(tasks))
    todo.reverse()
    live = {}
    out = []
    stop = False
    while todo or live:
        if stop or (deadline and time.time() > deadline):
            out += [(i, 'skipped', 'not started' if stop else 'out of time') for i, _ in todo]
            todo = []
        while todo and len(live) < nproc:
            i, t = todo.pop()
            a, b = ctx.Pipe(duplex=False)
            sys.stdout.flush()
            p = ctx.Process(target=_child, args=(b, fn, t, mem))
            p.start()
            b.close()
            live[a] = (i, p, min(time.time() + timeout, deadline or float('inf')))
        ready = multiprocessing.connection.wait(list(live), timeout=1.0)
        for conn in ready:
            i, p, _ = live.pop(conn)
            try:
                st, payload = conn.recv()
            except EOFError:
                st, payload = 'died', 'worker died without a result'
            conn.close()
            p.join()
            out.append((i, st, payload))
            if on_result and on_result(st, payload):
                stop = True
        now = time.time()
        for conn in list(live):
            i, p, dl = live[conn]
            if now > dl:
                live.pop(conn)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                conn.close()
                out.append((i, 'timeout', 'wall-clock watchdog'))
    out.sort(key=lambda x: x[0])
    return out


class Check(object):
    def __init__(self, prop, rule, assumptions=(), level='exploration', tier=None):
        self.prop, self.rule, self.level = prop, rule, level
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = os.environ.get('VERIF_SEED', '1')
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.seen = set()
        self.samples = []
        self.notes = {}
        self.violations = []
        self.inconclusives = []
        self.known_hits = {}
        self.work = os.path.join(ROOT, '.work', '%s-%d' % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'open']

    @property
    def quick(self):
        return self.tier == 'quick'

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *tags):
        return derive(self.seed, self.prop, *tags)

    def dir(self, *parts):
        d = os.path.join(self.work, *[str(p) for p in parts])
        os.makedirs(d, exist_ok=True)
        return d

    def merge(self, res):
        self.evals += res.evals
        self.seen |= res.seen
        for s in res.samples:
            if len(self.samples) < 8:
                self.samples.append(s)
        for k, v in res.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        self.inconclusives += res.inconclusive
        for v in res.violations:
            self.add_violation(v)

    def add_violation(self, v):
        for k in self.known:
            if k['key'] == v['key']:
                if k['key'] not in self.known_hits:
                    self.known_hits[k['key']] = v['what']
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                return
        self.violations.append(v)

    def violation(self, key, what, **replay):
        self.add_violation({'key': key, 'what': what, 'replay': replay})

    def inconclusive(self, msg):
        self.inconclusives.append(msg)

    def run(self, fn, tasks, timeout=600, nproc=None, mem=6 << 30, hang_is_violation=False):
        def enough(st, payload):
            # a run that already has its verdict does not go on for long
            if st == 'ok' and payload.violations:
                found.extend(v for v in payload.violations if v['key'] not in known)
            return bool(found) and time.time() - self.t0 > self.scale(150, 600)
        known = set(k['key'] for k in self.known)
        found = list(self.violations)
        deadline = self.t0 + self.scale(780, 5400)
        for i, st, payload in run_tasks(fn, tasks, timeout, nproc, mem, deadline, enough):
            if st == 'ok':
                self.merge(payload)
            else:
                self.inconclusive('task %d %s: %s' % (i, st, str(payload)[-2000:]))

    def require(self, name, minimum):
        """Fail as inconclusive unless the monitor behind note `name` was reached."""
        if self.notes.get(name, 0) < minimum:
            self.inconclusive('monitor %r reached only %d times (needs %d)' % (name, self.notes.get(name, 0), minimum))

    def finish(self, min_evals=1):
        shutil.rmtree(self.work, ignore_errors=True)
        wall = time.time() - self.t0
        vlist = []
        if self.violations:
            rd = os.path.join(EVIDENCE, 'replays')
            os.makedirs(rd, exist_ok=True)
        byk = {}
        for v in self.violations:
            byk.setdefault(v['key'], []).append(v)
        for n, (key, vs) in enumerate(sorted(byk.items())):
            v = vs[0]
            path = os.path.join(EVIDENCE, 'replays', '%s-%d.json' % (self.prop, n))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'what': v['what'], 'seed': self.seed, 'tier': self.tier,
                           'rerun': 'VERIF_SEED=%s ./check %s %s' % (self.seed, self.prop, self.tier),
                           'input': v['replay']}, f, indent=1, default=_jsonable)
            vlist.append('%s: %s' % (key, v['what'][:600]))
            if n < 20:
                print('violated: %s: %s' % (key, v['what'][:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if self.evals < min_evals and not self.violations:
            self.inconclusive('only %d evaluations observed' % self.evals)
        doc = {
            'property': self.prop, 'tier': self.tier, 'seed': int(self.seed) if str(self.seed).lstrip('-').isdigit() else 0,
            'level': self.level,
            'coverage': {
                'evaluations': self.evals, 'distinct_nontrivial': len(self.seen), 'rule': self.rule,
                'samples': self.samples or ['none'],
                'reached': {k: v for k, v in sorted(self.notes.items())},
            },
            'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': vlist[:20],
        }
        if self.known_hits:
            doc['known_findings'] = sorted(self.known_hits)
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(doc, f, indent=1, default=_jsonable)
        print('%s %s seed=%s: %d evaluations, %d distinct, %.1fs; %s' % (
            self.prop, self.tier, self.seed, self.evals, len(self.seen), wall,
            ', '.join('%s=%s' % kv for kv in sorted(self.notes.items())[:40])))
        if self.violations:
            return 1
        if self.inconclusives:
            for m in self.inconclusives[:3]:
                print('INCONCLUSIVE: ' + m[-900:])
            return 2
        return 0


def load_known():
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']
