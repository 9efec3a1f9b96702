"""
The simulator's kernel: event log, fault points, nested (re-entrant) operations, the cooperative
thread scheduler and the seams on library calls.

A run is a pure function of (plan, code, PYTHONHASHSEED).  A plan is plain JSON: every random choice
was drawn from the run's PRNG when the plan was generated, so nothing in this module draws from a PRNG
except the thread scheduler, whose own generator is seeded from the plan and whose choices are recorded
in the plan (so that replaying and minimising work on the explicit list of switches).
"""
import contextlib
import copy
import dis
import hashlib
import importlib
import os
import random
import sys
import threading
from collections import Counter
from datetime import date, datetime

REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'fixedIncome', 'src') + os.sep
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402


# ----------------------------------------------------------------------------------------------
# violations and faults

class Violation(BaseException):  # not an Exception: the code under test must not swallow it
    """The code under test broke the property."""

    def __init__(self, cls, detail):
        super().__init__(f'{cls}: {detail}')
        self.cls = cls
        self.detail = detail


class InjectedRuntime(RuntimeError):
    pass


class InjectedValue(ValueError):
    pass


class InjectedZeroDivision(ZeroDivisionError):
    pass


class InjectedMemory(MemoryError):
    pass


class InjectedKey(KeyError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


FAULTS = {'runtime': InjectedRuntime, 'value': InjectedValue, 'zerodiv': InjectedZeroDivision,
          'memory': InjectedMemory, 'key': InjectedKey, 'interrupt': InjectedInterrupt}
INJECTED = tuple(FAULTS.values())


def pick_fault_kind(rng):
    return rng.choice(['runtime', 'runtime', 'value', 'zerodiv', 'memory', 'key', 'interrupt'])


class Outcome:
    """What a call into the real code did: a value or an exception."""
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return f'ok {canon(self.value)}' if self.ok else f'raised {type(self.exc).__name__}'


def is_injected(exc):
    seen = set()
    while exc is not None and id(exc) not in seen:
        if isinstance(exc, INJECTED):
            return True
        seen.add(id(exc))
        exc = exc.__cause__ or exc.__context__
    return False


# ----------------------------------------------------------------------------------------------
# canonical forms

def canon(x):
    if x is None or isinstance(x, (bool, int, str)):
        return repr(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, np.integer):
        return repr(int(x))
    if isinstance(x, np.ndarray):
        if x.size <= 4:
            return f'arr{x.shape}{[float(v) for v in x.ravel()]!r}'
        return f'arr{x.shape}{hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:12]}'
    if isinstance(x, (datetime, date)):
        return x.isoformat()
    if isinstance(x, BaseException):
        return type(x).__name__
    if isinstance(x, dict):
        return '{' + ','.join(f'{canon(k)}:{canon(v)}' for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(canon(v) for v in x) + ']'
    if isinstance(x, Outcome):
        return repr(x)
    return type(x).__name__


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def close(a, b, rtol=1e-9, atol=1e-11):
    try:
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a) == np.isfinite(b)).all():
        return False
    with np.errstate(all='ignore'):
        fin = np.isfinite(a)
        if not (np.isnan(a[~fin]) == np.isnan(b[~fin])).all():
            return False
        return bool((np.abs(a[fin] - b[fin]) <= atol + rtol * np.maximum(np.abs(a[fin]), np.abs(b[fin]))).all())


def val(x, n):
    """Generators: a number rounded for readable plans, except that one in seven keeps all its digits."""
    return x if int(abs(x) * 1e9) % 7 == 0 else round(x, n)


def scalar(x):
    """A number out of whatever shape-1 thing the code returned."""
    arr = np.asarray(x, dtype=float)
    if arr.size != 1:
        raise ValueError(f'not a scalar: shape {arr.shape}')
    return float(arr.ravel()[0])


# ----------------------------------------------------------------------------------------------
# thread scheduler

class SimDeadlock(Exception):
    pass


class _Task:
    __slots__ = ('tid', 'fn', 'gate', 'thread', 'done', 'result', 'error', 'blocked_on', 'wrote')

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.result = None
        self.error = None
        self.blocked_on = None
        self.thread = None
        self.wrote = False


_real_lock = threading.Lock
_real_rlock = threading.RLock
_active_sched = None


_stores = {}


def shared_stores(code):
    """The lines of a function that write to something other than its own variables (or a new object)."""
    got = _stores.get(code)
    if got is None:
        got = _stores[code] = set()
        if code.co_name != '<module>':
            line, before = None, None
            constructs = code.co_name in ('__init__', '__post_init__')
            for ins in dis.get_instructions(code):
                line = ins.starts_line or line
                last, before = before, ins
                if constructs and ins.opname == 'STORE_ATTR' and last.argval == 'self':
                    continue
                if ins.opname in ('STORE_GLOBAL', 'STORE_ATTR', 'STORE_SUBSCR', 'DELETE_ATTR', 'DELETE_SUBSCR', 'DELETE_GLOBAL') \
                        or ins.opname == 'STORE_DEREF' and ins.argval in code.co_freevars:
                    got.add(line)
    return got


class Sched:
    """
    Runs tasks on real threads of which exactly one is ever running.  A thread may lose control only at
    a line of the code under test (a trace event) or at an explicit point (a callback of the simulation);
    who runs next is decided here and nowhere else.
    """

    def __init__(self, ctx, spec, tasks):
        self.ctx = ctx
        self.spec = spec
        self.explicit = None
        self.visits = Counter() if spec.get('profile') else None
        self.hot = Counter()                    # the visits right after a write to something shared
        self.targets = {}                       # duels: where which task loses control
        if 'switches' in spec:
            self.explicit = {int(s): int(t) for s, t in spec['switches']}
        else:
            self.rng = random.Random(spec['seed'])
            self.p = spec.get('p', 0)
            self.p_point = spec.get('pp', 0.5)
            self.fresh = spec.get('fresh')      # lines are the less likely to lose control the more often they have run
            self.seen = Counter()
            # lines left for which the running task keeps control
            self.quiet = self._quantum() if self.fresh and self.rng.random() < 0.6 else 0
        self.tasks = [_Task(i, fn) for i, fn in enumerate(tasks)]
        self.step = 0
        self.switches = []
        self.current = None
        self.main_gate = _real_lock()
        self.main_gate.acquire()
        self.max_steps = spec.get('max_steps', 80_000)  # and at most 1500 switches that nothing forces

    def _quantum(self):
        return int(10 ** self.rng.uniform(0, 3.7))

    def aim(self, alone):
        """Each of the first two tasks may lose control once, at one of the lines the first one ran alone."""
        if self.explicit is not None or alone is None or not alone.visits:
            return

        def pick():
            visits = alone.hot if alone.hot and self.rng.random() < 0.6 else alone.visits
            at = self.rng.choice(list(visits))
            if self.rng.random() < 0.5:     # every function alike, however long
                code = self.rng.choice(list(dict.fromkeys(c for c, _ in visits)))
                at = self.rng.choice([v for v in visits if v[0] == code])
            n = alone.visits[at]
            return [at, self.rng.choice([1, n, self.rng.randrange(1, n + 1)])]
        self.targets[0] = pick()
        if self.rng.random() < 0.4:
            self.targets[1] = pick()

    # -- decision -------------------------------------------------------------------------------
    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.blocked_on is None or not t.blocked_on.held_by_other(t))]

    def _switch_to(self, me, other):
        self.switches.append((self.step, other.tid))
        self.current = other
        other.gate.release()
        me.gate.acquire()

    def yield_point(self, weight=None, at=None, hot=False):
        me = self.current
        self.step += 1
        if self.step > self.max_steps:
            return
        if self.explicit is not None:
            tid = self.explicit.get(self.step)
            if tid is None or tid == me.tid or tid >= len(self.tasks):
                return
            other = self.tasks[tid]
            if other.done or (other.blocked_on is not None and other.blocked_on.held_by_other(other)):
                return
            self._switch_to(me, other)
            return
        if self.targets:
            aim = self.targets.get(me.tid)
            if aim is None or at != aim[0]:
                return
            aim[1] -= 1
            if aim[1] == 0:
                del self.targets[me.tid]
                others = [t for t in self._runnable() if t is not me]
                if others:
                    self._switch_to(me, others[self.rng.randrange(len(others))])
            return
        if self.spec.get('duel'):
            return
        p = self.p if weight is None else self.p_point
        if self.fresh:
            if weight is None:
                self.seen[at] += 1
                p = p / self.seen[at] if not hot else 0.5 / self.seen[at] ** 0.5
            if self.quiet:
                self.quiet -= 1
                return
        if self.rng.random() >= p or len(self.switches) > 1500:
            return
        others = [t for t in self._runnable() if t is not me]
        if others:
            if self.fresh:
                self.quiet = self.rng.choice([0, self._quantum(), self.max_steps, self.max_steps])
            self._switch_to(me, others[self.rng.randrange(len(others))])

    def block(self, lock):
        """The running task must wait for `lock` (a SimLock)."""
        me = self.current
        me.blocked_on = lock
        while lock.held_by_other(me):
            others = [t for t in self._runnable() if t is not me]
            if not others:
                raise SimDeadlock('all tasks blocked')
            self.step += 1
            other = others[0]
            if self.explicit is not None:
                tid = self.explicit.get(self.step)
                for t in others:
                    if t.tid == tid:
                        other = t
            else:
                other = others[self.rng.randrange(len(others))]
            self._switch_to(me, other)
        me.blocked_on = None

    # -- threads --------------------------------------------------------------------------------
    def _trace(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(SRC):
            return None
        stores = shared_stores(code)
        last = None

        def local(frame, event, arg):
            nonlocal last
            if event == 'line':
                if self.step > self.max_steps:
                    sys.settrace(None)      # whoever is left runs on undisturbed
                    return local
                me = self.current
                hot = last in stores or me.wrote
                me.wrote = False
                last = frame.f_lineno
                if self.visits is not None:
                    self.visits[code, last] += 1
                    if hot:
                        self.hot[code, last] += 1
                self.yield_point(at=(code, last), hot=hot)
            elif event == 'return' and last in stores:
                self.current.wrote = True
            return local
        return local

    def _body(self, task):
        task.gate.acquire()
        sys.settrace(self._trace)
        try:
            task.result = task.fn()
        except BaseException as e:  # noqa: BLE001 - handed to the main thread
            task.error = e
        finally:
            sys.settrace(None)
            task.done = True
            self.step += 1
            self.quiet = 0
            rest = self._runnable()
            if rest:
                other = rest[0]
                if self.explicit is not None:
                    tid = self.explicit.get(self.step)
                    for t in rest:
                        if t.tid == tid:
                            other = t
                else:
                    other = rest[self.rng.randrange(len(rest))]
                self.switches.append((self.step, other.tid))
                self.current = other
                other.gate.release()
            else:
                self.main_gate.release()

    def run(self):
        global _active_sched
        for t in self.tasks:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        _active_sched = self
        try:
            first = self.tasks[0]
            self.current = first
            first.gate.release()
            self.main_gate.acquire()
        finally:
            _active_sched = None
        for t in self.tasks:
            if t.done:
                t.thread.join()
        if not all(t.done for t in self.tasks):
            raise Violation('deadlock', 'threads of the code under test wait for one another for ever')
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        return [t.result for t in self.tasks]


class SimLock:
    """What code under test gets from threading.Lock()/RLock(): waits inside the scheduler, not the OS."""

    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        return _active_sched.current if _active_sched is not None else threading.get_ident()

    def held_by_other(self, task):
        return self._owner is not None and not (self._reentrant and self._owner is task)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.held_by_other(me):
            if not blocking:
                return False
            if _active_sched is None:
                raise SimDeadlock('lock acquired twice')
            _active_sched.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def _from_repo():
    return sys._getframe(2).f_code.co_filename.startswith(SRC)


def _lock_factory():
    return SimLock() if _from_repo() else _real_lock()


def _rlock_factory():
    return SimLock(True) if _from_repo() else _real_rlock()


def install_lock_seam():
    threading.Lock = _lock_factory
    threading.RLock = _rlock_factory


# ----------------------------------------------------------------------------------------------
# run context

class Frame:
    __slots__ = ('fault', 'inner', 'counts', 'fired', 'inner_done')

    def __init__(self, op):
        self.fault = op.get('fault')
        self.inner = op.get('inner')
        self.counts = Counter()
        self.fired = False
        self.inner_done = False


class Ctx:
    def __init__(self, plan):
        self.plan = copy.deepcopy(plan)
        self.log = []
        self.faults = Counter()
        self.faults_planned = Counter()
        self.probes = Counter()
        self.checks = 0
        self.ops = 0
        self.sim_days = 0.0
        self.switches = 0
        self.nested = 0
        self.inter = []      # interleaving traces
        self.states = set()
        self._tls = threading.local()
        self.run_inner = None  # set by the property: runs a list of operations
        self._depth = 0
        self.violation = None

    # -- log ------------------------------------------------------------------------------------
    def ev(self, *items):
        tid = _active_sched.current.tid if _active_sched is not None else '-'
        self.log.append(f'{len(self.log)} t{tid} ' + ' '.join(i if isinstance(i, str) else canon(i) for i in items))

    def state(self, *items):
        self.states.add(digest(' '.join(canon(i) for i in items)))

    def probe(self, name, n=1):
        self.probes[name] += n

    # -- checks ---------------------------------------------------------------------------------
    def fail(self, cls, text):
        self.ev('VIOLATION', cls, text)
        v = Violation(cls, text)
        if self.violation is None:
            self.violation = v
        raise v

    def check(self, cond, cls, detail):
        self.checks += 1
        if not cond:
            text = detail() if callable(detail) else detail
            self.fail(cls, text)

    def same(self, got, want, cls, what, rtol=1e-9, atol=1e-11):
        self.check(close(got, want, rtol, atol), cls, lambda: f'{what}: got {canon(got)}, expected {canon(want)}')

    # -- operations -----------------------------------------------------------------------------
    def _stack(self):
        st = getattr(self._tls, 'stack', None)
        if st is None:
            st = self._tls.stack = []
        return st

    @contextlib.contextmanager
    def frame(self, op):
        """The operation now executing on this thread: fault points and nested operations refer to it."""
        fr = Frame(op)
        if fr.fault:
            self.faults_planned[fr.fault['site']] += 1
        st = self._stack()
        st.append(fr)
        self.ops += 1
        try:
            yield fr
        finally:
            st.pop()

    def point(self, site):
        """A seam was crossed: perhaps hand over to another thread, run nested operations, inject the fault."""
        if _active_sched is not None:
            _active_sched.yield_point(weight=1)
        st = self._stack()
        if not st:
            return None
        fr = st[-1]
        fr.counts[site] += 1
        n = fr.counts[site]
        inner = fr.inner
        if inner and not fr.inner_done and inner['site'] == site and inner['at'] == n and self._depth < 2:
            fr.inner_done = True
            self._depth += 1
            self.nested += 1
            self.ev('nested-begin', site, n)
            try:
                self.run_inner(inner['ops'])
            finally:
                self._depth -= 1
            self.ev('nested-end')
        fault = fr.fault
        if fault and not fr.fired and fault['site'] == site and fault['at'] == n:
            fr.fired = True
            self.faults[f"{site}:{fault['kind']}"] += 1
            self.ev('FAULT', site, n, fault['kind'])
            if fault['kind'] in FAULTS:
                raise FAULTS[fault['kind']](f'injected at {site} #{n}')
            return fault
        return None

    def real(self, fn, *args, **kwargs):
        """A call into the code under test."""
        try:
            return Outcome(True, fn(*args, **kwargs))
        except Violation:
            raise
        except SimDeadlock as e:
            self.fail('deadlock', str(e))
        except HarnessBug:
            raise
        except (Exception, InjectedInterrupt) as e:
            return Outcome(False, exc=e)

    def must(self, out, cls, what):
        if not out.ok:
            self.check(False, cls, f'{what} raised {type(out.exc).__name__}: {out.exc}')
        return out.value

    @contextlib.contextmanager
    def reading(self, what):
        """Reads what the code under test shows: an error on the way is a violation."""
        try:
            yield
        except Exception as e:  # noqa: BLE001 - Violation and HarnessBug are no Exceptions
            self.check(False, 'view-raised', f'{what}: {type(e).__name__}: {e}')

    def parallel(self, op, tasks):
        """Run the callables as threads under the scheduler; record the schedule in the plan."""
        self.ev('threads', len(tasks))
        spec = op['sched']
        duel = bool(spec.get('duel'))
        alone = None
        rounds = spec.get('rounds') or [spec]
        if duel:
            # the first task alone, to see which lines it runs; then some rounds, each with one more crossing
            alone = Sched(self, {'switches': [], 'profile': True}, tasks[:1])
            alone.run()
            if 'rounds' not in spec:
                n = max(1, min(8, 20_000 // max(1, alone.step)))
                rounds = [dict(spec, seed=f"{spec['seed']}/{k}") for k in range(n)]
        done = []
        for spec in rounds:
            sched = Sched(self, spec, tasks)
            sched.aim(alone)
            try:
                sched.run()
            finally:
                done.append({'switches': [list(s) for s in sched.switches]})
                op['sched'] = {'duel': True, 'rounds': done} if duel else done[0]
                self.switches += len(sched.switches)
                self.inter.append((sched.step, tuple(sched.switches)))
        self.ev('threads-end', sched.step, len(sched.switches))


class HarnessBug(BaseException):
    pass


def history(rng, lo, hi, long=120):
    """How many operations a history has: usually few, now and then many."""
    return rng.randrange(lo, hi) if rng.random() < 0.98 else rng.randrange(hi, long)


def gen_sched(rng):
    r = rng.random()
    if r < 0.4:
        # the first thread runs alone, then loses control once, at one of the lines it then ran
        return {'seed': rng.randrange(1 << 30), 'duel': True}
    if r < 0.7:
        return {'seed': rng.randrange(1 << 30), 'fresh': True, 'p': rng.choice([0.5, 0.2, 0.05, 0.02]), 'pp': rng.choice([0, 0.2, 0.5])}
    return {'seed': rng.randrange(1 << 30), 'p': rng.choice([0.4, 0.2, 0.1, 0.03, 0.01]), 'pp': rng.choice([0.2, 0.5, 0.9])}


KINDS = ('op', 'q', 'how', 'k', 'set', 'leg', 'anew')


def gen_par(rng, make, most=3, counts=(2, 2, 3), **extra):
    """Operations of some threads; often every thread does the same kind of thing to something else."""
    sched = gen_sched(rng)
    n = rng.choice(counts)
    tasks = [[make() for _ in range(rng.randrange(1, most + 1))] for _ in range(n)]
    if sched.get('duel') and rng.random() < 0.7:
        # all kinds of operations alike, however rare
        some = {}
        for op in [make() for _ in range(12)]:
            some.setdefault(repr(kind(op)), op)
        tasks = [[some[rng.choice(sorted(some))]]] * 2
        for op in tasks[0]:
            for k in ('fault', 'inner', 'retry'):
                op.pop(k, None)
        tasks = rivals(make, tasks, 60)
        for k in ('fault', 'inner', 'retry'):
            tasks[1][0].pop(k, None)
    elif rng.random() < 0.4:
        tasks = rivals(make, [tasks[0]] * n, 30)
    return dict({'op': 'par', 'sched': sched, 'tasks': [{'ops': ops} for ops in tasks]}, **extra)


def kind(op):
    return [op.get(k) for k in KINDS]


def rivals(make, tasks, tries):
    out = [tasks[0]]
    for lead in tasks[1:]:
        ops = []
        for op in lead:
            for _ in range(tries):
                other = make()
                if kind(other) == kind(op) and other != op:
                    break
            ops.append(other)
        out.append(ops)
    return out


# ----------------------------------------------------------------------------------------------
# seams on library functions: replaced in the defining module and in every module of the code under test

_patched = []


def repo_modules():
    return [m for n, m in list(sys.modules.items()) if n.startswith('fixedIncome.') and m is not None]


def import_all():
    """Import every module of the package (the package's own tests import from these paths)."""
    base = os.path.join(REPO, 'fixedIncome', 'src')
    names = []
    for root, _, files in os.walk(base):
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(root, f), REPO)[:-3].replace(os.sep, '.')
                names.append(rel[:-9] if rel.endswith('.__init__') else rel)
    for n in sorted(names):
        importlib.import_module(n)


def patch_everywhere(owner, name, make_wrapper):
    """Replace owner.name, and every global of the code under test bound to the same object."""
    original = getattr(owner, name)
    wrapper = make_wrapper(original)
    setattr(owner, name, wrapper)
    for m in repo_modules():
        for key, val in list(vars(m).items()):
            if val is original:
                setattr(m, key, wrapper)
    return original


# ----------------------------------------------------------------------------------------------
# seams every property has: uninitialised memory and clocks, as the code under test sees them

class Env:
    """What this run's machine is like; drawn from the plan's 'env' seed, so that a replay sees the same."""
    rng = None
    counts = Counter()
    now = 0.0

    @classmethod
    def start(cls, seed):
        cls.rng = random.Random(seed) if seed is not None else None
        cls.counts = Counter()
        cls.now = cls.rng.choice([0.0, 1.7e9, 4e9]) if cls.rng else 0.0


def _garbage(original):
    def empty(*args, **kwargs):
        out = original(*args, **kwargs)
        if Env.rng is not None and _from_repo() and isinstance(out, np.ndarray) and out.dtype.kind in 'fciu' and out.size:
            kind = out.dtype.kind
            out.fill(Env.rng.choice([np.nan, 1e300, -7.5, 0.0, 0.03] if kind in 'fc' else [0, 1, 77]))
            Env.counts['memory:uninitialised array holds garbage'] += 1
        return out
    return empty


def _any_clock(original):
    nanos = original.__name__.endswith('_ns')

    def clock():
        if Env.rng is None or not _from_repo():
            return original()
        jump = Env.rng.choice([0.0, 1e-6, 1e-3, 0.5, 60.0, 3600.0, 86400.0 * 400, -1.0, -5000.0])
        Env.now += jump
        Env.counts[f"clock:{'back' if jump < 0 else 'frozen' if jump == 0 else 'leap' if jump >= 60 else 'tick'}"] += 1
        return int(Env.now * 1e9) if nanos else Env.now
    return clock


def install_env_seams():
    import time
    for owner, name, make in ([(np, 'empty', _garbage), (np, 'empty_like', _garbage)]
                              + [(time, n + suffix, _any_clock) for n in ('time', 'monotonic', 'perf_counter', 'process_time') for suffix in ('', '_ns')]):
        patch_everywhere(owner, name, make)


# ----------------------------------------------------------------------------------------------
# date helpers for plans

def d2s(d):
    return d.isoformat()


def s2d(s):
    return datetime.fromisoformat(s) if 'T' in s else date.fromisoformat(s)


def sub(rng):
    """A derived seed."""
    return rng.randrange(1 << 31)
