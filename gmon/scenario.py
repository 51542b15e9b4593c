"""Generation and execution of simulated optimization sessions."""
import contextlib
import io
import math
import os
import random
import shutil
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np

from gmon import sim as simmod
from gmon import world as wmod
from gmon.world import World, RecChecker, RecGenerator, RecHunter, RecSelector, ScriptOpt, SimTask, attach, set_world

from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager

SCRATCH = os.environ.get('GMON_SCRATCH') or tempfile.gettempdir()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='gmon_', dir=SCRATCH)
    try:
        yield Path(d)
    finally:
        assert os.path.basename(d).startswith('gmon_')
        shutil.rmtree(d, ignore_errors=True)


def values(rng, style, n):
    out = []
    for i in range(n):
        r = rng.random()
        if style == 'ties':
            out.append(float(rng.randint(-2, 2)))
        elif style == 'nan':
            out.append(math.nan if r < .2 else math.inf if r < .35 else -math.inf if r < .37 else rng.gauss(0, 10))
        elif style == 'bad':
            out.append(math.nan if r < .5 else math.inf)
        elif style == 'zero':
            out.append(rng.choice([0.0, -0.0, 1e-300, 1.0, 2.0, 5.0]))
        elif style == 'desc':
            out.append(100.0 - i + rng.random() * 3)
        elif style == 'neg':
            out.append(-abs(rng.gauss(5, 3)))
        elif style == 'huge':
            out.append(rng.choice([-1, 1]) * 10.0 ** rng.randint(-8, 12))
        else:
            out.append(rng.gauss(0, 10))
    return out


STYLES = ['rand', 'ties', 'nan', 'zero', 'desc', 'neg', 'huge', 'rand', 'bad']


class Plans:
    """ Deterministic plan per optimizer id. """

    def __init__(self, seed, style='rand', lo=0, hi=30, endings=(('fin', 1.0),), burst=0.3, msg=0.05, slow=0.0,
                 overrides=None):
        self.__dict__.update(seed=seed, style=style, lo=lo, hi=hi, endings=endings, burst=burst, msg=msg, slow=slow,
                             overrides=overrides or {})

    def __call__(self, opt_id):
        if opt_id in self.overrides:
            return self.overrides[opt_id]
        rng = random.Random(self.seed * 1000003 + opt_id)
        n = rng.randint(self.lo, max(self.lo, self.hi))
        style = self.style if self.style != 'mix' else rng.choice(STYLES)
        vals = values(rng, style, n)
        plan = []
        i = 0
        while i < n:
            if rng.random() < self.burst:
                k = rng.randint(2, 14)
                plan.append(('q', vals[i:i + k]))
                i += k
            else:
                plan.append(('e', vals[i]))
                i += 1
            if rng.random() < self.msg:
                plan.append(('msg', f'note {opt_id} {i}'))
            if rng.random() < self.slow:
                plan.append(('sleep', rng.choice([0.01, 0.5, 3.0])))
        r = rng.random() * sum(p for _, p in self.endings)
        for name, p in self.endings:
            r -= p
            if r <= 0:
                break
        end = {'fin': ('fin',), 'silent': ('silent',), 'raise': ('raise', f'crash of {opt_id}'), 'die': ('die', -9),
               'exit': ('exit', 3), 'exit0': ('exit', 0), 'hang': ('hang',)}[name]
        if name in ('raise', 'die', 'exit', 'hang') and rng.random() < 0.5 and plan:
            plan = plan[:rng.randint(0, len(plan))]
        return plan + [end]


DEFAULT = dict(seed=0, sim_seed=0, proc=True, max_jobs=3, opts=[1], style='rand', lo=0, hi=30, endings=[['fin', 1.0]],
               burst=0.3, msg=0.05, slow=0.0, policy='mixed', opt_burst=6, eof=True, fmax=None, rounds=None,
               max_opts=6, max_iters=None, p_none=0.1, hunt=None, hunt_freq=10, share=False, summary=0,
               aggressive=False, force_after=-1, chk=None, end_timeout=None, overrides=None, gen_seed=0, detailed=False,
               max_steps=40000, status=600)


def many(c, rng, p=0.08, most=(13, 13, 30)):
    """ Now and then many short-lived optimizers, so that their numbers have more than one digit. """
    if rng.random() < p:
        c['max_opts'] = rng.choice(most)
        c['lo'], c['hi'] = 1, rng.choice([2, 6])
        if c.get('fmax') and c['fmax'] < 60:
            c['fmax'] = None
        c['many'] = True
        if c.get('endings') and any(e[0] in ('hang', 'nosave') for e in c['endings']):
            c['endings'] = [['fin', 1]]
    return c


def base_cfg(rng, **over):
    """ A random but always valid scenario. """
    c = dict(DEFAULT)
    c['seed'] = rng.randrange(10 ** 9)
    c['sim_seed'] = rng.randrange(10 ** 9)
    c['proc'] = rng.random() < 0.6
    c['max_jobs'] = rng.choice([1, 1, 2, 3, 4, 6])
    ws = [1]
    if rng.random() < 0.4:
        ws = [rng.randint(1, max(1, min(4, c['max_jobs']))) for _ in range(rng.randint(1, 3))]
    c['opts'] = ws
    c['style'] = rng.choice(STYLES + ['mix', 'mix'])
    c['hi'] = rng.choice([0, 3, 10, 30, 60])
    c['burst'] = rng.choice([0, 0.2, 0.6, 1.0])
    c['policy'] = rng.choice(['mixed', 'mixed', 'favour', 'slow_opts', 'fast_opts', 'rare_burst', 'fifo', 'random'])
    c['opt_burst'] = rng.choice([2, 6, 12])
    c['eof'] = rng.random() < 0.5
    end = rng.random()
    c['max_opts'] = rng.choice([1, 2, 3, 5, 8, 12])
    if end < 0.45:
        pass                                            # exhaustion
    elif end < 0.8:
        c['fmax'] = rng.choice([1, 5, 20, 60, 150])
    else:
        c['rounds'] = rng.choice([2, 3, 8, 20])
    c['p_none'] = rng.choice([0, 0.1, 0.4])
    if rng.random() < 0.35:
        c['hunt'] = rng.choice([0.05, 0.2, 0.6, 1.0])
        c['hunt_freq'] = rng.choice([1, 3, 10, 25])
    c['share'] = rng.random() < 0.15
    c['aggressive'] = rng.random() < 0.25
    c['slow'] = rng.choice([0, 0, 0.1])
    c['status'] = rng.choice([600, 600, 600, 0])
    c.update(over)
    return c


class Trace:
    pass


def _selector(c):
    kw = {}
    opts = [(ScriptOpt, {'workers': w, 'tag': i}, {'mark': i}) for i, w in enumerate(c['opts'])]
    return RecSelector(*opts, seed=c['seed'], max_opts=c['max_opts'],
                       max_iters=c['max_iters'] if c['max_iters'] is not None else 10 ** 12, p_none=c['p_none'])


def build(c, wd, world, task=None, selector=None, checker=None, hunter=None, generator=None, chk=None, make=None,
          **extra):
    m = make() if make else GloMPOManager()
    if chk is None and c['chk']:
        k = c['chk']
        chk = CheckpointingControl(checkpoint_time_frequency=k.get('time', math.inf),
                                   checkpoint_iter_frequency=k.get('iter', math.inf),
                                   checkpoint_at_init=k.get('init', False), checkpoint_at_conv=k.get('conv', False),
                                   raise_checkpoint_fail=k.get('raise', False), force_task_save=k.get('force', False),
                                   keep_past=k.get('keep', -1), naming_format=k.get('fmt', 'chk_%(count)'),
                                   checkpointing_dir=wd / 'chk')
    kw = dict(task=task or SimTask(), bounds=[(-1e303, 1e303)] * wmod.NDIM, opt_selector=selector or _selector(c),
              working_dir=wd, max_jobs=c['max_jobs'], backend='processes' if c['proc'] else 'threads',
              convergence_checker=checker or RecChecker(c['fmax'] if c['fmax'] is not None else math.inf,
                                                        c['rounds'] if c['rounds'] is not None else math.inf),
              x0_generator=generator or RecGenerator(c['gen_seed']),
              killing_conditions=hunter or (RecHunter(c['hunt'], c['seed']) if c['hunt'] is not None else None),
              share_best_solutions=c['share'], hunt_frequency=c['hunt_freq'], status_frequency=c['status'],
              checkpoint_control=chk, summary_files=c['summary'], is_log_detailed=c['detailed'],
              force_terminations_after=c['force_after'], aggressive_kill=c['aggressive'],
              end_timeout=c['end_timeout'], split_printstreams=False)
    kw.update(extra)
    m.setup(**kw)
    attach(m, world)
    return m


def start(m, S, world):
    t = Trace()
    t.exc = None
    err = io.StringIO()
    old = sys.stdout, sys.stderr
    t.warn = []
    world.t_start_clock = S.log('session_begin')
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        sys.stdout, sys.stderr = io.StringIO(), err
        try:
            t.result = m.start_manager()
        except simmod.Stuck as e:
            t.result = None
            t.exc = e
        except Exception as e:
            t.result = None
            t.exc = e
        finally:
            sys.stdout, sys.stderr = old
        t.warn = [str(w.message) for w in ws]
    t.stderr = err.getvalue()
    t.stuck = S.stuck
    t.S, t.W, t.m = S, world, m
    t.end_clock = S.log('session_end')
    t.session = world.session
    return t


def run(c, wd, prepare=None, **kw):
    """ One fresh session. """
    S = simmod.Sim(c['sim_seed'], c['policy'], c['max_steps'], c['eof'], c['opt_burst'])
    np.random.seed(c['seed'] % (2 ** 31))
    random.seed(c['seed'])
    w = World(S, Plans(c['seed'], c['style'], c['lo'], c['hi'], [tuple(e) for e in c['endings']], c['burst'], c['msg'],
                       c['slow'], {int(k): [tuple(o) for o in v] for k, v in (c['overrides'] or {}).items()}))
    set_world(w)
    with S:
        m = build(c, wd, w, **kw)
        if prepare:
            prepare(m, S, w)
        t = start(m, S, w)
        t.alive_after = [(a.name, a.sigterm) for a in S.actors.values() if a.alive and a.started]
    t.c = c
    return t


def opt_of(name):
    return int(str(name).replace('Opt', ''))
