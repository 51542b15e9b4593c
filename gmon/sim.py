"""Deterministic co-operative simulation of GloMPO's concurrency substrate.

The manager runs in the main thread.  Every optimizer runs in its own real thread but only one thread ever runs at a
time: control (the 'baton') is handed over explicitly at every interaction with a pipe, queue, event, process object or
evaluation.  The schedule is drawn from a seeded generator, so every execution is exactly replayable, virtual time
replaces wall-clock time, and a run in which nobody can make progress is recognised as such instead of timing out.
The code under test (manager, ChunkingQueue, BaseOptimizer, loggers...) is the real code.
"""
import copy
import collections
import multiprocessing
import multiprocessing.managers
import pickle
import queue
import random
import sys
import threading
import time
import types

REAL = types.SimpleNamespace(
    time=time.time, sleep=time.sleep, monotonic=time.monotonic,
    Process=multiprocessing.Process, Pipe=multiprocessing.Pipe, Manager=multiprocessing.Manager,
    t_start=threading.Thread.start, t_alive=threading.Thread.is_alive, t_join=threading.Thread.join,
    Lock=threading.Lock, RLock=threading.RLock, Condition=threading.Condition, allocate=threading.Lock)

CURRENT = None


class Killed(BaseException):
    """ Unwinds the thread of an optimizer which was terminated; it has no effect on anything any more. """


class Stuck(BaseException):
    """ Raised in the manager when nobody can ever make progress or the step budget is exhausted. """


class Actor:
    def __init__(self, sim, name, kind):
        self.sim, self.name, self.kind = sim, name, kind
        self.sem = REAL.allocate()
        self.sem.acquire()
        self.state = 'live'  # live, done, dead
        self.pred = None
        self.deadline = None
        self.in_server = 0
        self.sigterm = None
        self.exitcode = None
        self.started = False
        self.thread = None
        self.ended_step = None
        self.steps = 0
        self.conns = []
        self.data = {}

    @property
    def alive(self):
        return self.state == 'live'

    def runnable(self):
        if self.state == 'done':
            return False
        if self.state == 'dead' and not self.in_server:
            return False
        if self.pred is None or self.pred():
            return True
        return self.deadline is not None and self.sim.now >= self.deadline


class Sim:
    """ One simulated session (one manager). """

    def __init__(self, seed, policy='mixed', max_steps=60000, eof=True, opt_burst=6, dt=0.0005, term_delay=True):
        self.rng = random.Random(seed)
        self.policy = policy
        self.max_steps = max_steps
        self.eof = eof
        self.opt_burst = opt_burst
        self.dt = dt
        self.term_delay = term_delay
        self.now = 1_600_000_000.0
        self.actors = {}
        self.by_thread = {}
        self.main = Actor(self, 'M', 'manager')
        self.main_ident = threading.get_ident()
        self.steps = 0
        self.opt_steps = 0
        self.stuck = None
        self.closing = False
        self.sig = 0
        self.switches = 0
        self.last = None
        self.frozen = False      # no optimizer runs (harness bookkeeping)
        self.events = []         # (clock, kind, dict)
        self.clock = 0
        self.times = [self.now]  # virtual time of every clock value
        self.on_manager_point = None
        self.fav = None

    # ---- bookkeeping -------------------------------------------------------------------------------------------
    def log(self, kind, **kw):
        return self.log_dict(kind, kw)

    def log_dict(self, kind, kw):
        self.clock += 1
        self.times.append(self.now)
        self.events.append((self.clock, kind, kw))
        return self.clock

    def __enter__(self):
        global CURRENT
        assert CURRENT is None
        CURRENT = self
        return self

    def __exit__(self, *a):
        global CURRENT
        self.close()
        CURRENT = None

    def close(self):
        """ Unwinds all leftover optimizer threads. """
        self.closing = True
        for a in list(self.actors.values()):
            if a.state != 'done' and a.thread is not None and a.started:
                a.state = 'dead'
                for _ in range(50):
                    if a.thread_done:
                        break
                    a.sem.release()
                    self.main.sem.acquire()
                a.in_server = 0
        self.by_thread.clear()

    # ---- who is calling ----------------------------------------------------------------------------------------
    def me(self):
        i = threading.get_ident()
        if i == self.main_ident:
            return self.main
        return self.by_thread.get(i)

    # ---- scheduling --------------------------------------------------------------------------------------------
    def _candidates(self):
        return [a for a in self.actors.values() if a.started and a.runnable()]

    def _apply_terms(self):
        for a in self.actors.values():
            if a.sigterm is not None and a.state == 'live' and a.started:
                if not self.term_delay or self.rng.random() < 0.5:
                    self.mark_dead(a, a.sigterm)

    def mark_dead(self, a, code):
        a.state = 'dead'
        a.exitcode = code
        a.ended_step = self.log('opt_dead', opt=a.name, code=code)
        for c in a.conns:
            c.closed_by_death = True

    def run_one(self, a):
        self.opt_steps += 1
        a.steps += 1
        if self.last is not a:
            self.switches += 1
            self.last = a
        self.sig = hash((self.sig, a.name, a.steps & 7))
        self.now += self.dt
        a.sem.release()
        self.main.sem.acquire()

    def _pick(self, cand):
        if self.policy == 'fifo':
            return cand[0]
        if self.policy in ('favour', 'mixed') and self.fav in cand and self.rng.random() < 0.8:
            return self.fav
        a = self.rng.choice(cand)
        if self.rng.random() < 0.3:
            self.fav = a
        return a

    def _burst(self):
        r = self.rng.random()
        p = self.policy
        if p == 'slow_opts':
            return 1 if r < 0.25 else 0
        if p == 'fast_opts':
            return self.rng.randint(0, 4 * self.opt_burst)
        if p == 'rare_burst':
            return self.rng.randint(20, 120) if r < 0.04 else 0
        if r < 0.45:
            return 0
        if r < 0.9:
            return self.rng.randint(1, self.opt_burst)
        return self.rng.randint(self.opt_burst, 8 * self.opt_burst)

    def _check_budget(self):
        if self.steps > self.max_steps or self.opt_steps > 20 * self.max_steps:
            if not self.stuck:
                self.stuck = 'budget'
                import traceback
                self.stuck_stack = ''.join(traceback.format_stack(limit=14)[:-2])
            raise Stuck('step budget exhausted')

    def mgr_point(self, kind):
        if self.closing or self.frozen:
            return
        self.steps += 1
        self.now += self.dt
        self.sig = hash((self.sig, kind))
        self._check_budget()
        self._apply_terms()
        if self.on_manager_point:
            self.on_manager_point(kind)
        for _ in range(self._burst()):
            cand = self._candidates()
            if not cand:
                break
            self.run_one(self._pick(cand))

    def mgr_wait(self, pred, timeout=None):
        """ Manager blocks. """
        self.mgr_point('wait')
        end = None if timeout is None else self.now + max(0, timeout)
        while True:
            if pred():
                return True
            if end is not None and self.now >= end:
                return False
            self.steps += 1
            self._check_budget()
            self._apply_terms()
            if pred():
                return True
            cand = self._candidates()
            if not cand:
                dl = [a.deadline for a in self.actors.values() if a.state == 'live' and a.deadline is not None]
                nxt = min(dl + ([end] if end is not None else []), default=None)
                if nxt is None:
                    if any(a.sigterm is not None and a.state == 'live' for a in self.actors.values()):
                        continue
                    if not self.stuck:
                        self.stuck = 'deadlock'
                        import traceback
                        self.stuck_stack = ''.join(traceback.format_stack(limit=14)[:-2])
                    raise Stuck('deadlock')
                self.now = max(self.now, nxt)
                continue
            self.run_one(self._pick(cand))

    def opt_point(self, a, kind, pred=None, timeout=None):
        """ An optimizer interacts: hand the baton back and wait to be scheduled (once `pred` holds). """
        if (a.state == 'dead' and not a.in_server) or self.closing:
            raise Killed()
        a.pred = pred
        a.deadline = None if timeout is None else self.now + timeout
        self.main.sem.release()
        a.sem.acquire()
        a.deadline = None
        a.pred = None
        if (a.state == 'dead' and not a.in_server) or self.closing:
            raise Killed()
        return True if pred is None else bool(pred())

    def point(self, kind, pred=None, timeout=None):
        a = self.me()
        if a is None:
            return True if pred is None else pred()
        if a is self.main:
            if pred is None:
                self.mgr_point(kind)
                return True
            return self.mgr_wait(pred, timeout)
        return self.opt_point(a, kind, pred, timeout)

    # ---- actors ------------------------------------------------------------------------------------------------
    def new_actor(self, name, kind, body):
        a = Actor(self, name, kind)
        key = name
        n = 0
        while key in self.actors:
            n += 1
            key = f'{name}#{n}'
        a.key = key
        a.thread_done = False
        self.actors[key] = a

        def run():
            a.sem.acquire()
            self.by_thread[threading.get_ident()] = a
            try:
                if a.state == 'dead' or self.closing:
                    raise Killed()
                code = body(a)
                if a.state == 'live':
                    a.exitcode = 0 if code is None else code
            except Killed:
                pass
            finally:
                if a.state == 'live':
                    a.ended_step = self.log('opt_exit', opt=a.name, code=a.exitcode)
                    for c in a.conns:
                        c.closed_by_death = True
                    a.state = 'done'
                a.in_server = 0
                a.thread_done = True
                self.by_thread.pop(threading.get_ident(), None)
                self.main.sem.release()

        t = threading.Thread(target=run, daemon=True)
        a.thread = t
        return a

    def start_actor(self, a):
        REAL.t_start(a.thread)
        a.started = True

    def die(self, code):
        """ The calling optimizer process disappears on the spot. """
        a = self.me()
        self.mark_dead(a, code)
        raise Killed()


# ---------------------------------------------------------------------------------------------------------------------
def _s():
    return CURRENT


class SimLock:
    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = _s()
        if s is not None and s.me() is not None and not s.closing:
            s.point('lock')
            if self._locked:
                if not blocking:
                    return False
                s.point('lockwait', lambda: not self._locked, None if timeout is None or timeout < 0 else timeout)
                if self._locked:
                    return False
        elif self._locked and not blocking:
            return False
        self._locked = True
        return True

    def release(self):
        self._locked = False

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        tok = [False]
        self._waiters.append(tok)
        self._lock.release()
        try:
            _s().point('cond', lambda: tok[0], timeout)
        finally:
            self._waiters[:] = [t for t in self._waiters if t is not tok]
            s = _s()
            if s is not None and not s.closing:
                while self._lock._locked:
                    s.point('relock', lambda: not self._lock._locked)
            self._lock._locked = True
        return tok[0]

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            if not self.wait(timeout) and timeout is not None:
                return predicate()
            r = predicate()
        return r

    def notify(self, n=1):
        for tok in self._waiters[:n]:
            tok[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class _Swap:
    def __enter__(self):
        self.old = threading.Lock, threading.Condition, threading.RLock
        threading.Lock, threading.Condition, threading.RLock = SimLock, SimCondition, SimLock

    def __exit__(self, *a):
        threading.Lock, threading.Condition, threading.RLock = self.old


class SimEvent:
    def __init__(self):
        self._flag = False

    def __deepcopy__(self, memo):
        return self

    def is_set(self):
        _s().point('ev.is_set')
        return self._flag

    def set(self):
        s = _s()
        s.point('ev.set')
        if s.me() is s.main:
            s.log('ev.set', ev=id(self))
        self._flag = True

    def clear(self):
        _s().point('ev.clear')
        self._flag = False

    def wait(self, timeout=None):
        s = _s()
        s.point('ev.wait')
        if not self._flag:
            s.point('ev.blocked', lambda: self._flag, timeout)
        return self._flag


class ServerProxy:
    """ Object living in the (simulated) multiprocessing server: arguments and returns are pickled, calls run to
    completion even if the calling process dies in the middle. """

    def __init__(self, obj, exposed=None):
        self.__dict__['_obj'] = obj

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        fn = getattr(self._obj, name)
        if not callable(fn):
            raise AttributeError(f"'AutoProxy' object has no attribute '{name}'")

        def call(*a, **k):
            s = _s()
            a, k = pickle.loads(pickle.dumps((a, k)))
            s.point('srv.' + name)
            me = s.me()
            if me is not None:
                me.in_server += 1
            try:
                r = fn(*a, **k)
            finally:
                if me is not None and not s.closing:
                    me.in_server -= 1
            s.point('srv.ret.' + name) if (me is not None and me is not s.main) else None
            return pickle.loads(pickle.dumps(r))

        return call


class FakeManager:
    def __init__(self):
        pass

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        reg = multiprocessing.managers.SyncManager._registry
        if name == 'Event':
            return SimEvent
        if name not in reg:
            raise AttributeError(name)

        def make(*a, **k):
            with _Swap():
                obj = reg[name][0](*a, **k)
            return ServerProxy(obj)

        return make

    def shutdown(self):
        pass

    def start(self, *a):
        pass


class SimConn:
    def __init__(self):
        self.inbox = collections.deque()
        self.peer = None
        self.owner = None
        self.closed_by_death = False
        self.closed = False

    def __deepcopy__(self, memo):
        return self

    def send(self, obj):
        s = _s()
        data = pickle.dumps(obj)
        s.point('pipe.send')
        if self.peer.closed or (self.peer.closed_by_death and s.eof):
            raise BrokenPipeError(32, 'Broken pipe')
        self.peer.inbox.append(data)
        s.log('send', peer=id(self.peer), by=getattr(s.me(), 'name', '?'), obj=obj)

    def _hup(self):
        return self.peer.closed or (self.peer.closed_by_death and _s().eof)

    def poll(self, timeout=0.0):
        s = _s()
        s.point('pipe.poll')
        if self.inbox or self._hup():
            return True
        if timeout is None or timeout > 0:
            s.point('pipe.pollwait', lambda: bool(self.inbox) or self._hup(), timeout)
        return bool(self.inbox) or self._hup()

    def recv(self):
        s = _s()
        s.point('pipe.recv')
        if not self.inbox and not self._hup():
            s.point('pipe.recvwait', lambda: bool(self.inbox) or self._hup())
        if not self.inbox:
            raise EOFError
        return pickle.loads(self.inbox.popleft())

    def close(self):
        self.closed = True

    def fileno(self):
        return -1


class FakeProcess:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        self.name, self.daemon = name, daemon
        self._a = None
        FakeProcess._n += 1
        self._pid = 100000 + FakeProcess._n
        self._ran = False

    @property
    def pid(self):
        return self._pid if self._a else None

    ident = pid

    def start(self):
        s = _s()
        assert self._a is None, 'cannot start a process twice'
        s.point('proc.start')
        memo = {}
        target, args, kw = copy.deepcopy((self._target, self._args, self._kwargs), memo)

        def body(a):
            try:
                target(*args, **kw)
                return 0
            except SystemExit as e:
                return e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Killed:
                raise
            except BaseException:
                return 1

        self._a = s.new_actor(self.name, 'process', body)
        owner = getattr(getattr(target, '__self__', None), '__dict__', {})
        for v in owner.values():
            if isinstance(v, SimConn):
                self._a.conns.append(v)
        s.log('opt_start', opt=self.name, proc=True)
        s.start_actor(self._a)
        del self._target, self._args, self._kwargs

    def is_alive(self):
        if self._a is None:
            return False
        _s().point('proc.is_alive')
        return self._a.alive

    @property
    def exitcode(self):
        return None if self._a is None or self._a.alive else self._a.exitcode

    def terminate(self):
        s = _s()
        s.point('proc.terminate')
        if self._a.alive:
            s.log('terminate', opt=self.name)
            if self._a.sigterm is None:
                self._a.sigterm = -15

    kill = terminate

    def join(self, timeout=None):
        if self._a is None:
            raise AssertionError('can only join a started process')
        _s().point('proc.join', lambda: not self._a.alive, timeout)

    def close(self):
        pass


class PatchedProcess(REAL.Process):
    def __new__(cls, *a, **k):
        if CURRENT is not None and cls is PatchedProcess:
            return FakeProcess(*a, **k)
        return super().__new__(cls)


def _pipe(duplex=True):
    if CURRENT is None:
        return REAL.Pipe(duplex)
    a, b = SimConn(), SimConn()
    a.peer, b.peer = b, a
    return a, b


def _manager():
    if CURRENT is None:
        return REAL.Manager()
    return FakeManager()


def _time():
    return REAL.time() if CURRENT is None else CURRENT.now


def _monotonic():
    return REAL.monotonic() if CURRENT is None else CURRENT.now


def _sleep(sec):
    if CURRENT is None or CURRENT.me() is None:
        return REAL.sleep(sec)
    CURRENT.point('sleep', lambda: False, sec)


def _t_start(self):
    s = CURRENT
    if s is None or s.me() is not s.main or not str(self.name).startswith('Opt') or s.closing:
        return REAL.t_start(self)
    orig = self.run

    def body(a):
        try:
            orig()
        except Killed:
            raise
        except BaseException:
            pass

    s.point('thread.start')
    a = s.new_actor(self.name, 'thread', body)
    self._sim_actor = a
    self._started.set()
    s.log('opt_start', opt=self.name, proc=False)
    s.start_actor(a)


def _t_alive(self):
    a = self.__dict__.get('_sim_actor')
    if a is None:
        return REAL.t_alive(self)
    if CURRENT is a.sim:
        a.sim.point('thread.is_alive')
    return a.alive


def _t_join(self, timeout=None):
    a = self.__dict__.get('_sim_actor')
    if a is None:
        return REAL.t_join(self, timeout)
    if CURRENT is a.sim:
        a.sim.point('thread.join', lambda: not a.alive, timeout)


import datetime as _dtm  # noqa: E402

REALDT = _dtm.datetime


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, REALDT)

    def __subclasscheck__(cls, c):
        return issubclass(c, REALDT)


CLOCK = [None]  # harness-provided wall clock (REALDT) for datetime.now()


class PatchedDatetime(REALDT, metaclass=_DTMeta):
    def __new__(cls, *a, **k):
        return REALDT(*a, **k)

    @classmethod
    def now(cls, tz=None):
        if CLOCK[0] is not None:
            return CLOCK[0]() if callable(CLOCK[0]) else CLOCK[0]
        if CURRENT is not None:
            return REALDT.fromtimestamp(CURRENT.now, tz)
        return REALDT.now(tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return REALDT.fromtimestamp(t, tz)


def make_datetime(*a):
    return REALDT(*a)


def _reduce_datetime(d):
    return make_datetime, (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)


def _rarely(fn):
    last = {}

    def f(self, *a, **k):
        if CURRENT is None:
            return fn(self, *a, **k)
        key = self.pid, a, tuple(sorted(k.items()))
        if key not in last or REAL.monotonic() - last[key][0] > 5:
            last[key] = REAL.monotonic(), fn(self, *a, **k)
        return last[key][1]

    return f


def install():
    import copyreg
    copyreg.pickle(REALDT, _reduce_datetime)   # `datetime.datetime` is no longer the class of genuine instances
    import numpy, yaml, tables, dill, matplotlib.pyplot, psutil, logging.handlers, tarfile, tempfile  # noqa
    # resource figures are expensive to get and not the subject of any property: measured rarely during a simulation
    for name in ('memory_full_info', 'children'):
        setattr(psutil.Process, name, _rarely(getattr(psutil.Process, name)))
    _dtm.datetime = PatchedDatetime
    multiprocessing.Process = PatchedProcess
    multiprocessing.Pipe = _pipe
    multiprocessing.Manager = _manager
    time.time = _time
    time.sleep = _sleep
    time.monotonic = _monotonic
    queue.time = _monotonic
    threading.Thread.start = _t_start
    threading.Thread.is_alive = _t_alive
    threading.Thread.join = _t_join
