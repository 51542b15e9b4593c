"""Scripted optimizers, tasks, conditions, selectors and generators used as the environment of the manager, plus the
event recording at the client boundary.  All of them use only GloMPO's documented extension points."""
import math
import os
import pickle
import random
import types

import numpy as np

from glompo.convergence import BaseChecker
from glompo.generators import BaseGenerator
from glompo.hunters import BaseHunter
from glompo.opt_selectors import BaseSelector
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult

from gmon import sim as simmod

NDIM = 3
WORLD = None

NAN, INF, NINF = 1e301, 1e302, -1e302


def enc(v):
    if v != v:
        return NAN
    if v == math.inf:
        return INF
    if v == -math.inf:
        return NINF
    return float(v)


def dec(c):
    c = float(c)
    return math.nan if c == NAN else math.inf if c == INF else -math.inf if c == NINF else c


def same(a, b):
    return a == b or (a != a and b != b)


class World:
    """ Recorder of one optimization (possibly several sessions). """

    def __init__(self, sim, plans, ndim=NDIM):
        self.sim = sim
        self.plans = plans            # callable: opt_id -> list of operations
        self.evals = []               # dict(opt, seq, fx, begin, end, delivered, session)
        self.rec = []                 # dict(opt, seq, fx, clock, session, x)
        self.ev = []                  # generic events (kind, dict) with clock
        self.session = 0
        self.manager = None
        self.user_points = []         # callables run at every checker call
        self.final = None
        self.chk_open = None
        self.fail_at = {}             # component name -> call number -> exception class

    def log(self, kind, **kw):
        kw['session'] = self.session
        kw['clock'] = self.sim.clock + 1
        self.sim.log_dict(kind, kw)
        self.ev.append((kind, kw))
        return kw

    def of(self, kind, session=None):
        return [e for k, e in self.ev if k == kind and (session is None or e['session'] == session)]

    def chk_listing(self):
        """ Archives present, asked for by evaluations which begin while a checkpoint is being made. """
        if not self.chk_open:
            return None
        try:
            return frozenset(os.listdir(self.chk_open))
        except FileNotFoundError:
            return frozenset()

    def n_started(self):
        return len({e['opt'] for e in self.of('opt_new')})

    def maybe_fail(self, comp):
        d = self.fail_at.get(comp)
        if d:
            n = d['n'] = d.get('n', 0) + 1
            if n in d['at']:
                self.log('injected', comp=comp, n=n, exc=d['exc'].__name__)
                raise d['exc'](f'injected failure in {comp} call {n}')


class SimTask:
    """ Objective: x = [opt_id, seq, encoded value]. """

    def __call__(self, x):
        w = WORLD
        e = dict(opt=int(x[0]), seq=int(x[1]), fx=dec(x[2]), session=w.session, delivered=False,
                 begin=w.sim.log('eval.begin', opt=int(x[0]), seq=int(x[1]), dir=w.chk_listing()))
        w.sim.point('eval.begin')
        w.evals.append(e)
        e['end'] = w.sim.log('eval.end', opt=int(x[0]), seq=int(x[1]))
        w.sim.point('eval.end')
        return e['fx']


class UnpicklableTask(SimTask):
    def __reduce__(self):
        raise pickle.PicklingError('refuses to be pickled')

    def __deepcopy__(self, memo):
        return self


class ScriptOpt(BaseOptimizer):
    """ Follows a plan: a list of operations
    ('e', v) evaluate a point of value v | ('q', [v..]) evaluate without looking at messages in between
    ('msg', text) | ('sleep', s) | ('fin',) | ('silent',) | ('raise', text) | ('die', code) | ('exit', code) | ('hang',)
    """

    def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1,
                 backend='threads', is_log_detailed=False, plan=None, **kw):
        super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed)
        self.plan = list(plan if plan is not None else WORLD.plans(_opt_id))
        self.pos = 0
        self.sub = 0
        self.n_eval = 0
        self.stopped = False
        self.extra_kw = dict(kw)
        WORLD.log('opt_new', opt=_opt_id, workers=workers, backend=backend, detailed=is_log_detailed, kw=dict(kw),
                  pipe=id(_signal_pipe))

    def _eval(self, function, v):
        x = np.array([float(self._opt_id), float(self.n_eval), enc(v)])
        if self._opt_id % 3 == 2:
            x = x.tolist()
        self.n_eval += 1
        r = function(x)
        if self._opt_id % 3:
            x[:] = [-7.0] * len(x)      # an optimizer may reuse its buffer
        for e in reversed(WORLD.evals):
            if e['opt'] == self._opt_id and e['seq'] == self.n_eval - 1:
                e['delivered'] = True
                break
        return r

    def _tick(self):
        self.check_messages()
        self._pause_signal.wait()

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        WORLD.log('opt_begin', opt=self._opt_id, x0=np.array(x0, copy=True), call_kw=dict(kwargs), n_eval=self.n_eval,
                  restart=self.is_restart, workers=self.workers, pipe=id(self._signal_pipe))
        while self.pos < len(self.plan) and not self.stopped:
            op = self.plan[self.pos]
            if op[0] == 'e':
                self.pos += 1
                self._eval(function, op[1])
                self._tick()
            elif op[0] == 'q':
                while self.sub < len(op[1]):
                    self.sub += 1
                    self._eval(function, op[1][self.sub - 1])
                self.sub = 0
                self.pos += 1
                self._tick()
            elif op[0] == 'msg':
                self.pos += 1
                self.message_manager(9, op[1])
                self._tick()
            elif op[0] == 'sleep':
                self.pos += 1
                WORLD.sim.point('sleep', lambda: False, op[1])
                self._tick()
            elif op[0] == 'raise':
                self.pos += 1
                WORLD.log('fault', opt=self._opt_id, what='raise')
                raise RuntimeError(op[1])
            elif op[0] == 'die':
                self.pos += 1
                if WORLD.sim.me().kind == 'process':
                    WORLD.log('fault', opt=self._opt_id, what='die')
                    WORLD.sim.die(op[1])
                WORLD.log('fault', opt=self._opt_id, what='raise')
                raise RuntimeError('died')
            elif op[0] == 'exit':
                self.pos += 1
                if WORLD.sim.me().kind == 'process':
                    WORLD.log('fault', opt=self._opt_id, what='exit%d' % op[1])
                    raise SystemExit(op[1])
                WORLD.log('fault', opt=self._opt_id, what='raise')
                raise RuntimeError('exit')
            elif op[0] == 'hang':
                if WORLD.sim.me().kind == 'process':
                    WORLD.log('fault', opt=self._opt_id, what='hang')
                    while True:
                        WORLD.sim.point('hang', lambda: False, 1000.0)
                WORLD.log('fault', opt=self._opt_id, what='raise')
                raise RuntimeError('hang')
            elif op[0] == 'silent':
                self.pos += 1
                WORLD.log('opt_finish', opt=self._opt_id, how='silent')
                return MinimizeResult()
            elif op[0] == 'fin':
                self.pos += 1
                break
            else:
                raise AssertionError(op)
        WORLD.log('opt_finish', opt=self._opt_id, how='stopped' if self.stopped else 'fin')
        self.message_manager(0, 'Optimizer convergence')
        self.check_messages()
        return MinimizeResult()

    def callstop(self, reason=''):
        WORLD.log('opt_callstop', opt=self._opt_id, reason=reason)
        self.stopped = True

    def inject(self, x, fx):
        WORLD.log('opt_inject', opt=self._opt_id, x=list(map(float, x)), fx=float(fx))
        super().inject(x, fx)

    def checkpoint_save(self, path, force=None):
        WORLD.log('opt_save', opt=self._opt_id, n_eval=self.n_eval)
        WORLD.maybe_fail('opt_save')
        super().checkpoint_save(path, force)
        WORLD.log('opt_saved', opt=self._opt_id, n_eval=self.n_eval)


class RecChecker(BaseChecker):
    """ Stops when f_counter >= fmax or after `rounds` evaluations or when `never` is False...; records every call. """

    def __init__(self, fmax=math.inf, rounds=math.inf):
        super().__init__()
        self.fmax = fmax
        self.rounds = rounds
        self.n = 0

    def __call__(self, manager):
        w = WORLD
        self.n += 1
        started = manager.t_start is not None
        res = manager.result
        w.log('check', f=manager.f_counter, o=manager.o_counter, conv=manager.conv_counter,
              kills=sorted(manager.hunt_victims), n_rec=len(w.rec), started=started,
              x=None if res.x is None else [float(i) for i in res.x], fx=res.fx,
              origin=None if res.origin is None else dict(res.origin),
              live=[a.name for a in w.sim.actors.values() if a.alive and a.started])
        self.last_result = None
        for fn in list(w.user_points):
            fn(manager)
        w.maybe_fail('checker')
        self.last_result = bool(manager.f_counter >= self.fmax or self.n >= self.rounds)
        w.ev[-1][1]  # keep
        w.log('checked', res=self.last_result, started=started)
        return self.last_result


class RecHunter(BaseHunter):
    """ Random but recorded decisions. """

    def __init__(self, p=0.3, seed=0):
        super().__init__()
        self.p = p
        self.seed = seed
        self.n = 0

    @staticmethod
    def _held(log, opt_id):
        try:
            h = log.get_history(opt_id, 'fx')
        except KeyError:
            return None
        return len(h), float(h[-1]) if len(h) else None

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        w = WORLD
        self.n += 1
        w.maybe_fail('hunter')
        r = random.Random(self.seed * 7919 + self.n)
        self.last_result = r.random() < self.p
        try:
            ended = log.get_metadata(victim_opt_id, 'end_cond')
        except KeyError:
            ended = None
        w.log('hunt', hunter=hunter_opt_id, victim=victim_opt_id, res=self.last_result, f=len(log), n_rec=len(w.rec),
              ended=ended, vlen=log.len(victim_opt_id), hist=[self._held(log, o) for o in (hunter_opt_id, victim_opt_id)])
        return self.last_result


class RecSelector(BaseSelector):
    """ Chooses by a seeded generator among the options, sometimes refuses; stops spawning after `max_opts`. """

    def __init__(self, *opts, seed=0, max_opts=10 ** 9, max_iters=10 ** 12, p_none=0.0, allow_spawn=None):
        super().__init__(*opts, allow_spawn=allow_spawn)
        self.seed = seed
        self.max_opts = max_opts
        self.max_iters = max_iters
        self.p_none = p_none
        self.n = 0

    def select_optimizer(self, manager, log, slots_available):
        w = WORLD
        self.n += 1
        e = w.log('select', slots=slots_available, ans=None, live=[a.name for a in w.sim.actors.values() if a.alive])
        w.maybe_fail('selector')
        r = random.Random(self.seed * 104729 + self.n)
        if manager.o_counter >= self.max_opts or manager.f_counter >= self.max_iters:
            e['ans'] = False
            return False
        fit = [o for o in self.avail_opts if o[1]['workers'] <= slots_available]
        if not fit or (r.random() < self.p_none and any(a.alive for a in w.sim.actors.values())):
            return None
        o = r.choice(fit)
        e['ans'] = (o[0].__name__, dict(o[1]), dict(o[2]))
        return o


class RecGenerator(BaseGenerator):
    def __init__(self, seed=0):
        super().__init__()
        self.seed = seed
        self.n = 0

    def generate(self, manager):
        self.n += 1
        WORLD.maybe_fail('generator')
        x = np.random.RandomState((self.seed * 1000003 + self.n) % (2 ** 31)).uniform(-1, 1, NDIM)
        WORLD.log('gen', x=x.copy())
        return x


def snapshot(log, n_opts):
    """ Everything the log tells about the run through its public queries. """
    snap = {'len': len(log), 'best': dict(log.get_best_iter()), 'max': log.largest_eval, 'opts': {}}
    for o in range(1, n_opts + 1):
        d = {'meta': {}}
        for k in ('opt_id', 'opt_type', 't_start', 't_stop', 'end_cond'):
            try:
                d['meta'][k] = log.get_metadata(o, k)
            except KeyError:
                pass
        for tr in ('call_id', 'x', 'fx'):
            try:
                d[tr] = [i for i in log.get_history(o, tr)]
            except KeyError:
                d[tr] = None
        try:
            d['best'] = dict(log.get_best_iter(o))
        except KeyError:
            d['best'] = None
        snap['opts'][o] = d
    return snap


def settings(m):
    return {'bounds': [tuple(map(float, b)) for b in m.bounds], 'max_jobs': m.max_jobs,
            'hunt_frequency': m.hunt_frequency, 'sharing': bool(m.incumbent_sharing), 'summary': m.summary_files,
            'aggressive': bool(m.aggressive_kill), 'status': m.status_frequency, 'working_dir': str(m.working_dir),
            'detailed': bool(m.is_log_detailed), 'proc': bool(m.proc_backend), 'overwrite': bool(m.overwrite_existing),
            'checker': str(m.convergence_checker), 'selector': type(m.opt_selector).__name__,
            'generator': type(m.x0_generator).__name__, 'hunter': str(m.killing_conditions),
            'split': bool(m.split_printstreams), 'n_parms': m.n_parms, 'end_timeout': m.end_timeout}


def attach(manager, world):
    """ Observation points on the public surface of one manager instance. """
    world.manager = manager
    log = manager.opt_log
    orig_put = log.put_iteration

    def put_iteration(res, *a, **k):
        world.rec.append(dict(opt=int(res.opt_id), x=[float(i) for i in res.x], seq=int(res.x[1]), xo=int(res.x[0]),
                              fx=float(res.fx), vx=dec(res.x[2]), clock=world.sim.log('rec', opt=int(res.opt_id)),
                              session=world.session, extras=tuple(res.extras)))
        return orig_put(res, *a, **k)

    log.put_iteration = put_iteration
    orig_msg = log.put_message

    def put_message(opt_id, message):
        world.log('message', opt=opt_id, text=str(message))
        return orig_msg(opt_id, message)

    log.put_message = put_message
    orig_close = log.close

    def close(*a, **k):
        world.sim.frozen = True
        try:
            world.final = snapshot(log, manager.o_counter)
        finally:
            world.sim.frozen = False
        return orig_close(*a, **k)

    log.close = close
    orig_cp = manager.checkpoint

    def checkpoint(self, *a, **k):
        before = set(self.checkpoint_history)
        world.log('chkpt_begin', n_rec=len(world.rec), f=self.f_counter, hist=before,
                  live=[x.name for x in world.sim.actors.values() if x.alive and x.started])
        world.chk_open = str(self.checkpoint_control.checkpointing_dir)
        try:
            r = orig_cp(*a, **k)
        except BaseException as ex:
            world.chk_open = None
            world.log('chkpt_end', ok=False, exc=repr(ex), n_rec=len(world.rec), hist=set(self.checkpoint_history))
            raise
        world.chk_open = None
        frozen, world.sim.frozen = world.sim.frozen, True
        try:
            world.log('chkpt_end', ok=True, n_rec=len(world.rec), f=self.f_counter, o=self.o_counter,
                      conv=self.conv_counter, kills=sorted(self.hunt_victims), fx=self.result.fx,
                      x=list(self.result.x) if self.result.x else self.result.x, origin=self.result.origin,
                      hist=set(self.checkpoint_history), hunts=self.hunt_counter, last_hunt=self.last_hunt,
                      spawning=self.spawning_opts, settings=settings(self),
                      snap=snapshot(log, self.o_counter), n_chk_checks=len(world.of('checked')))
        finally:
            world.sim.frozen = frozen
        return r

    manager.checkpoint = types.MethodType(checkpoint, manager)


def set_world(w):
    global WORLD
    WORLD = w
