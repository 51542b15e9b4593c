"""Chains of sessions: run, stop, load a checkpoint, resume."""
import math
import random
import sys
import warnings
import io
from pathlib import Path

import numpy as np

from gmon import scenario as sc
from gmon import sim as simmod
from gmon import world as wmod
from gmon.world import World, RecChecker, ScriptOpt, SimTask, attach, set_world

from glompo.core.manager import GloMPOManager


def mk_plans(c):
    return sc.Plans(c['seed'], c['style'], c['lo'], c['hi'], [tuple(e) for e in c['endings']], c['burst'], c['msg'],
                    c['slow'], {int(k): [tuple(o) for o in v] for k, v in (c.get('overrides') or {}).items()})


def checkpoints_of(W, session):
    """ Completed checkpoints of a session: (begin, end, path, saved optimizers {id: evaluations}) """
    out = []
    cur = None
    for k, e in W.ev:
        if e['session'] != session:
            continue
        if k == 'chkpt_begin':
            cur = dict(begin=e, saved={}, started_save={})
        elif k == 'opt_saved' and cur is not None:
            cur['saved'][e['opt']] = e['n_eval']
        elif k == 'chkpt_end' and cur is not None:
            if e['ok']:
                new = e['hist'] - cur['begin']['hist']
                cur['end'] = e
                cur['path'] = Path(sorted(new)[0]) if len(new) == 1 else None
                out.append(cur)
            cur = None
    return out


class Resume:
    """ What is known about a checkpoint before it is loaded. """

    def __init__(self, W, chk):
        e = chk['end']
        self.path = chk['path']
        self.end = e
        self.n_rec = e['n_rec']
        self.rec = W.rec[:self.n_rec]
        self.saved = chk['saved']
        self.base = {}
        for r in self.rec:
            self.base[r['opt']] = self.base.get(r['opt'], 0) + 1
        self.ev_clock = e['clock']
        self.session = W.session


def load(c, wd, prev_w, resume, seed, max_jobs=None, checker=None, load_kw=None, attach_=True):
    """ Loads a checkpoint into a new manager living in a new simulation.  Returns (S, W, m). """
    S = simmod.Sim(seed, c['policy'], c['max_steps'], c['eof'], c['opt_burst'])
    S.now = prev_w.sim.now + random.Random(seed).choice([0, 1, 90.25, 40000])     # a while later
    S.times = [S.now]
    w = World(S, mk_plans(c))
    w.session = prev_w.session + 1
    w.rec = list(resume.rec)
    w.evals = [e for e in prev_w.evals if e['seq'] < resume.base.get(e['opt'], 0)]
    w.ev = [(k, e) for k, e in prev_w.ev if e['session'] < w.session and e['clock'] <= resume.ev_clock or
            e['session'] < prev_w.session]
    set_world(w)
    S.__enter__()
    m = GloMPOManager()
    kw = dict(load_kw or {})
    if checker is not None:
        kw['convergence_checker'] = checker
    if max_jobs is not None:
        kw['max_jobs'] = max_jobs
    old = sys.stdout, sys.stderr
    w.load_warnings = []
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            m.load_checkpoint(resume.path, **kw)
            w.load_warnings = [str(x.message) for x in ws]
    finally:
        sys.stdout, sys.stderr = old
    if attach_:
        attach(m, w)
    return S, w, m


def leave(S):
    S.__exit__(None, None, None)
