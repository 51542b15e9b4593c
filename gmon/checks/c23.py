"""Configuration: invalid arguments, valid ones, repeated initialisation, damaged checkpoints and changes at loading."""
import copy
import gzip
import io
import math
import os
import pickle
import random
import sys
import tarfile
import warnings
from pathlib import Path

import multiprocessing as mp
import numpy as np

from gmon import chain, oracle as orc, scenario as sc, sim as simmod, simchecks, world as wmod
from gmon.world import (RecChecker, RecGenerator, RecHunter, RecSelector, ScriptOpt, SimTask, UnpicklableTask, World, set_world, same)

from glompo.convergence import KillsAfterConvergence
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.generators import RandomGenerator

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: attributes, directory, warnings and errors of the real manager are recorded around every attempt to initialise it; '
             'a differential oracle compares a manager after a refused attempt with a fresh one, attribute by attribute and through a '
             'complete simulated run event by event')
LEVEL_NOTE = 'Arguments, damages and changes sampled from VERIF_SEED.'
RULE = (simchecks.RULE + ' Before it: one or more refused attempts (invalid setup arguments, damaged or missing checkpoints), or a second '
        'initialisation; or a random subset of valid arguments; or a checkpoint loaded with changed arguments. Damages: truncation, flipped '
        'and removed bytes of the archive and of its members, missing, empty, foreign members, pickles of other things.')
ASSUMPTIONS = simchecks.ASSUMPTIONS + [
    'Malformed bounds (not pairs of numbers) may be refused with any error; bool and numpy integers as job limits are left out.',
    'A damaged archive which loads nevertheless (the damage concerned nothing which is read) is not judged.']
CASES = {'quick': 420, 'thorough': 6000}
HANG = 200
REQUIRED = ['refused', 'refused:task', 'refused:bounds', 'refused:max_jobs', 'refused:opt_selector', 'refused:convergence_checker',
            'refused:x0_generator', 'refused:killing_conditions', 'refused:checkpoint_control', 'refused:scope', 'resumed', 'two_wrong', 'not_started', 'same_run',
            'valid', 'defaults', 'stored', 'second_setup', 'second_load', 'load_refused', 'damaged_truncate', 'damaged_flip', 'damaged_member',
            'damaged_pickle', 'missing_file', 'bad_task', 'too_few_jobs', 'overridden', 'unknown_key', 'fallback_task', 'bad_dir', 'bad_backend',
            'setup_after_load_refused', 'load_after_load_refused']


class NotCallable:
    pass


class Falsy(SimTask):
    def __len__(self):
        return 0


def wrong(name, k):
    """ Invalid values per argument: (value, errors allowed). """
    nan, inf = math.nan, math.inf
    T, V, E = TypeError, ValueError, Exception
    chk = CheckpointingControl(checkpoint_iter_frequency=5)
    sel = RecSelector((ScriptOpt, {'workers': 1}, {}))
    objs = [0, '', False, (), {}, 1, 'no', object(), chk, [1]]
    tab = {
        'task': [(v, T) for v in [None, 0, 'f', 3.5, [], NotCallable(), {}]],
        'opt_selector': [(v, T) for v in objs + [None, RecSelector, SimTask(), ScriptOpt, [(ScriptOpt, {}, {})]]],
        'convergence_checker': [(v, T) for v in objs + [RecChecker, KillsAfterConvergence, sel, RecHunter(), lambda m: True]],
        'x0_generator': [(v, T) for v in objs + [RecGenerator, RandomGenerator, sel, lambda m: [0] * 3]],
        'killing_conditions': [(v, T) for v in objs + [RecHunter, RecChecker(), sel, lambda *a: True]],
        'checkpoint_control': [(v, T) for v in [0, '', False, (), {}, 1, 'no', object(), sel, CheckpointingControl]],
        'max_jobs': [(v, V) for v in [0, -1, -17, -10 ** 30]] + [(v, T) for v in [1.0, 2.5, '3', [4], nan, inf, {}, '', (), 0.0]],
        'scope': [({'nonsense': 1}, T), ({'x_range': 3, 'other': 2}, T)],
        'bounds': [(b, V) for b in [
            [(0, 1), (1, 0)], [(1, 1)], [(0, 0), (0, 1)], [(0, inf)], [(-inf, 0)], [(-inf, inf)], [(nan, 1)], [(0, nan)], [(nan, nan)],
            [(0, 1)] * 5 + [(2, 1)], [(0., 0.)], [(-0.0, 0.0)], np.array([[0, 1], [3, 2]]), np.array([[0, 1], [0, inf]]),
            [(inf, -inf)], [(5, -5), (0, 1)], ((0, 1), (0, 1), (1e300, -1e300)), [[1, 1]], [(10 ** 400, 10 ** 400)],
            [(0, 1), (inf, inf)], [(-inf, -inf)]]] + [(b, E) for b in [None, 5, [(0,)], [0, 1], [None], [('a', 1)], [(None, 1)], [(0, None)]]]}
    vals = tab[name]
    return vals[k % len(vals)]


ARGS = ['task', 'bounds', 'opt_selector', 'convergence_checker', 'x0_generator', 'killing_conditions', 'checkpoint_control', 'max_jobs', 'scope']
DAMAGES = ['truncate', 'flip', 'cut', 'empty', 'text', 'no_manager', 'no_opt_log', 'no_optimizers', 'manager_trunc', 'manager_garbage',
           'manager_list', 'task_garbage', 'task_trunc', 'opts_garbage', 'optlog_garbage', 'optlog_trunc', 'missing', 'directory',
           'bad_loader', 'not_callable', 'no_task', 'few_jobs', 'str_jobs', 'one_opt']


def gen(i, rng, tier):
    kind = rng.choice(['invalid', 'invalid', 'valid', 'valid', 'once', 'damaged', 'damaged', 'damaged', 'override'])
    c = sc.base_cfg(rng)
    c['hi'] = rng.choice([3, 10, 20])
    c['max_opts'] = rng.choice([1, 2, 4])
    c['status'] = 600
    c['kind'] = kind
    c['detailed'] = False
    if kind == 'invalid':
        n = rng.choice([1, 1, 1, 2, 3])
        c['attempts'] = [[[a, rng.randrange(1000)] for a in rng.sample(ARGS, rng.choice([1, 1, 1, 2]))] for _ in range(n)]
    elif kind == 'valid':
        c['omit'] = [k for k in ['working_dir', 'overwrite_existing', 'max_jobs', 'backend', 'convergence_checker', 'x0_generator',
                                 'killing_conditions', 'share_best_solutions', 'hunt_frequency', 'status_frequency', 'checkpoint_control',
                                 'summary_files', 'is_log_detailed', 'force_terminations_after', 'aggressive_kill', 'end_timeout',
                                 'split_printstreams'] if rng.random() < 0.4]
        c['vseed'] = rng.randrange(10 ** 9)
        c['start'] = rng.random() < 0.6
    elif kind == 'once':
        c['how'] = rng.choice(['setup', 'load', 'bad_setup', 'bad_load'])
        c['first'] = rng.choice(['setup', 'load'])
        c['when'] = rng.choice(['before', 'before', 'during', 'after'])
        c['fmax'] = c['rounds'] = None
        c['hi'] = 12
    if kind in ('damaged', 'override') or (kind == 'once'):
        c['chk'] = {'iter': rng.choice([2, 5, 9]), 'conv': True, 'keep': -1}
        c['overrides'] = {str(k): [['e', float(x)] for x in range(1, 20)] + [['fin']] for k in range(1, 3)}
        c['max_opts'] = max(2, c['max_opts'])
        if kind == 'damaged':
            c['dmg'] = [[rng.choice(DAMAGES), rng.random(), rng.randrange(1000)] for _ in range(rng.choice([1, 1, 2, 3]))]
            c['then'] = rng.choice(['setup', 'load', 'setup'])
            c['summary'] = rng.choice([0, 0, 3])
        if kind == 'override':
            c['oseed'] = rng.randrange(10 ** 9)
    return c


SKIP = {'_mp_manager', 'optimizer_queue', 'logger', '_process'}


def state(m):
    return {k: v for k, v in vars(m).items() if k not in SKIP and not callable(v)}


def flat(v):
    """ Comparable form of an attribute. """
    if isinstance(v, (int, float, str, bool, bytes, Path, type(None))):
        return repr(v)
    if isinstance(v, dict):
        return {repr(k): flat(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [type(v).__name__] + [flat(x) for x in v]
    return type(v).__name__, id(v)


def quiet(fn, *a, **k):
    """ Calls; returns (result, exception, warnings). """
    old = sys.stdout, sys.stderr
    exc = res = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        try:
            res = fn(*a, **k)
        except Exception as e:
            exc = e
        finally:
            sys.stdout, sys.stderr = old
        return res, exc, [str(w.message) for w in ws]


def is_refused(m, ctx, d, what):
    ctx.expect(m.is_initialised is False, 'initialised after a refused attempt', what)
    before = sorted(p.name for p in d.rglob('*'))
    res, exc, ws = quiet(m.start_manager)
    ctx.expect(exc is None and tuple(res) == ([], math.inf, {}, {}), 'start of a manager which is not initialised', (what, res, repr(exc)))
    ctx.expect(any('initialise manager first' in w for w in ws), 'no warning that the manager is not initialised', (what, ws))
    ctx.expect(sorted(p.name for p in d.rglob('*')) == before, 'files made by a manager which is not initialised', what)
    ctx.expect(m.is_initialised is False, 'initialised after a refused start', what)
    ctx.count('not_started')


def twin(case, ctx, make, d, **kw):
    """ The same run by a fresh manager and by one which was refused before. """
    (d / 'w1').mkdir()
    (d / 'w2').mkdir()
    a = sc.run(case, d / 'w1', **kw)

    def still():
        """ The attempts leave no trace in the simulation. """
        S = wmod.WORLD.sim
        keep = S.frozen, S.rng.getstate(), np.random.get_state(), random.getstate()
        S.frozen = True
        try:
            return make()
        finally:
            S.frozen = keep[0]
            S.rng.setstate(keep[1])
            np.random.set_state(keep[2])
            random.setstate(keep[3])
            wmod.WORLD.ev.clear()

    b = sc.run(case, d / 'w2', make=still, **kw)
    va = orc.View(a)
    if not orc.run_ok(va, ctx):
        return
    ra = [(r['opt'], r['seq'], r['fx'] if r['fx'] == r['fx'] else None) for r in a.W.rec]
    rb = [(r['opt'], r['seq'], r['fx'] if r['fx'] == r['fx'] else None) for r in b.W.rec]
    ctx.expect(b.exc is None, 'run after a refused attempt fails', repr(b.exc))
    ctx.expect(ra == rb, 'run after a refused attempt differs from the one of a fresh manager',
               lambda: (len(ra), len(rb), [x for x in zip(ra, rb) if x[0] != x[1]][:2]))
    if b.result is not None and a.result is not None:
        ctx.expect(same(a.result.fx, b.result.fx) and str(a.result.origin) == str(b.result.origin),
                   'result after a refused attempt differs from the one of a fresh manager', (a.result, b.result))
    fa, fb = [{k: v for k, v in state(t.m).items()} for t in (a, b)]
    ctx.expect(set(fa) == set(fb), 'attributes after a refused attempt differ from the ones of a fresh manager', set(fa) ^ set(fb))
    for k in ('o_counter', 'f_counter', 'hunt_counter', 'conv_counter', 'max_jobs', 'hunt_frequency', 'proc_backend', 'opts_daemonic',
              'end_timeout', 'summary_files', 'aggressive_kill', 'incumbent_sharing', 'allow_forced_terminations', 'n_parms', 't_used',
              'overwrite_existing', 'visualisation', 'visualisation_args', 'status_frequency', 'converged', 'opt_crashed'):
        ctx.expect(repr(fa.get(k)) == repr(fb.get(k)), 'attribute after a refused attempt differs from the one of a fresh manager',
                   (k, fa.get(k), fb.get(k)))
    ctx.expect(len(fa['dt_starts']) == len(fb['dt_starts']) and len(fa['load_history']) == len(fb['load_history']),
               'history of a refused attempt', (fa['dt_starts'], fb['dt_starts']))
    ctx.expect(len(fa['checkpoint_history']) == len(fb['checkpoint_history']), 'history of a refused attempt',
               (fa['checkpoint_history'], fb['checkpoint_history']))
    ctx.count('same_run')
    if a.S.opt_steps > 3:
        ctx.sig(a.S.sig, len(ra))


def valid_kw(d):
    return dict(task=SimTask(), bounds=[(0, 1)] * wmod.NDIM, opt_selector=RecSelector((ScriptOpt, {'workers': 1}, {}), max_opts=1),
                working_dir=d / 'refused', max_jobs=2, convergence_checker=RecChecker(5), split_printstreams=False)


def r_invalid(case, ctx, d):
    def make():
        m = GloMPOManager()
        for att in case['attempts']:
            kw = valid_kw(d)
            allowed = ()
            for name, k in att:
                v, e = wrong(name, k)
                if name == 'scope':
                    kw['visualisation'], kw['visualisation_args'] = True, v
                kw[name] = v
                allowed += (e,)
            scope = kw.pop('scope', None)
            _, exc, _ = quiet(m.setup, **kw)
            kw['scope'] = scope
            what = [(n, repr(kw[n])[:60]) for n, _ in att]
            ctx.expect(exc is not None, 'invalid argument accepted', what)
            ctx.expect(exc is None or isinstance(exc, allowed), 'wrong kind of error for an invalid argument', (what, repr(exc)))
            ctx.expect(not (d / 'refused').exists(), 'directory made by a refused attempt', what)
            is_refused(m, ctx, d, what)
            ctx.count('refused')
            if len(att) > 1:
                ctx.count('two_wrong')
            else:
                ctx.count('refused:' + att[0][0])
        return m
    twin(case, ctx, make, d)
    # the class method does not return anything either
    kw = valid_kw(d)
    name, k = case['attempts'][0][0]
    v, e = wrong(name, k)
    if name == 'scope':
        kw['visualisation'], name = True, 'visualisation_args'
    kw[name] = v
    res, exc, _ = quiet(GloMPOManager.new_manager, **kw)
    ctx.expect(exc is not None and isinstance(exc, e) and res is None, 'invalid argument accepted', (name, repr(exc)))


def r_valid(case, ctx, d):
    rng = random.Random(case['vseed'])
    bk = rng.choice(['processes', 'threads', 'processes_forced', 'nonsense', 'Threads', '', 'process', None, 3])
    wd = rng.choice([str(d / 'a' / 'b'), d / 'x', str(d) + '/./y/../z', None, 5, b'bytes'])
    nb = rng.choice([[(-1e303, 1e303)] * wmod.NDIM, np.array([[-1e303, 1e303]] * wmod.NDIM), tuple([-10 ** 3, 1e303] for _ in range(wmod.NDIM)),
                     [(0, 1)] * wmod.NDIM, [(-i - 1, 0.5 * i) for i in range(wmod.NDIM)]])
    full = dict(working_dir=wd, overwrite_existing=rng.choice([True, False, 1, 0]), max_jobs=rng.choice([1, 2, 3, 7, 500]), backend=bk,
                convergence_checker=RecChecker(20), x0_generator=RecGenerator(3), killing_conditions=RecHunter(0.3),
                share_best_solutions=rng.random() < 0.5, hunt_frequency=rng.choice([1, 7, 100, 10 ** 9]),
                status_frequency=rng.choice([1, 600, 10 ** 6, 0, 30.0]), checkpoint_control=rng.choice([None, CheckpointingControl(checkpointing_dir=d / 'c')]),
                summary_files=rng.choice([0, 1, 2, 3]), is_log_detailed=False, force_terminations_after=rng.choice([-1, 0, 1, 30, 0.5]),
                aggressive_kill=rng.random() < 0.5, end_timeout=rng.choice([0, 1, 5, 0.5, 100]), split_printstreams=rng.random() < 0.5)
    kw = {k: v for k, v in full.items() if k not in case['omit']}
    if kw.get('is_log_detailed') is False and rng.random() < 0.3:
        kw['is_log_detailed'] = False
    sel = sc._selector(case)
    req = dict(task=SimTask(), bounds=nb, opt_selector=sel)
    S = simmod.Sim(case['sim_seed'], case['policy'], case['max_steps'], case['eof'], case['opt_burst'])
    w = World(S, sc.Plans(case['seed'], 'rand', 1, 8))
    set_world(w)
    here = os.getcwd()
    (d / 'cwd').mkdir()
    os.chdir(d / 'cwd')
    try:
        with S:
            m = GloMPOManager()
            _, exc, ws = quiet(m.setup, **req, **kw)
            if exc is not None:
                ctx.viol('valid arguments refused', ({k: repr(v)[:50] for k, v in kw.items()}, repr(exc)))
                return
            ctx.count('valid')
            ctx.count('defaults', len(case['omit']))
            ctx.count('stored', len(kw))
            g = kw.get
            good = ('processes', 'threads', 'processes_forced')
            b = g('backend', 'processes')
            proc = b != 'threads'
            exp = dict(task=req['task'], opt_selector=sel, overwrite_existing=bool(g('overwrite_existing', False)),
                       max_jobs=g('max_jobs', mp.cpu_count() - 1), proc_backend=proc, opts_daemonic=b != 'processes_forced',
                       incumbent_sharing=g('share_best_solutions', False), hunt_frequency=g('hunt_frequency', 100),
                       status_frequency=g('status_frequency', 600), checkpoint_control=g('checkpoint_control', None),
                       summary_files=g('summary_files', 0), is_log_detailed=g('is_log_detailed', False),
                       allow_forced_terminations=g('force_terminations_after', -1) > 0, aggressive_kill=g('aggressive_kill', False),
                       end_timeout=g('end_timeout', 10 if proc else None), split_printstreams=g('split_printstreams', True),
                       killing_conditions=g('killing_conditions', None), n_parms=wmod.NDIM, o_counter=0, f_counter=0, conv_counter=0,
                       hunt_counter=0, spawning_opts=True)
            for k in ('convergence_checker', 'x0_generator'):
                if k in kw:
                    exp[k] = kw[k]
            for k, v in exp.items():
                got = getattr(m, k)
                ok = got is v or (isinstance(v, (int, float, bool)) and got == v)
                ctx.expect(ok, 'argument or default not stored as given', (k, repr(v), repr(got)))
            if 'convergence_checker' not in kw:
                chk = m.convergence_checker
                ctx.expect(type(chk) is KillsAfterConvergence and str(chk) == str(KillsAfterConvergence()), 'default condition', str(chk))
            if 'x0_generator' not in kw:
                gen_ = m.x0_generator
                pts = [gen_.generate(m) for _ in range(20)]
                ctx.expect(type(gen_) is RandomGenerator, 'default generator', type(gen_))
                ctx.expect(all(bb[0] <= x <= bb[1] for p in pts for x, bb in zip(p, nb)) and all(len(p) == wmod.NDIM for p in pts),
                           'default generator leaves the bounds', lambda: (pts[:2], nb))
            ctx.expect(len(m.bounds) == len(nb) and all(a.min == x[0] and a.max == x[1] for a, x in zip(m.bounds, nb)),
                       'bounds not stored as given', (m.bounds, nb))
            w_ = g('working_dir', '.')
            root = Path(w_).resolve() if isinstance(w_, (str, Path)) else Path.cwd().resolve()
            ctx.expect(m.working_dir == root, 'working directory not stored as given', (m.working_dir, w_))
            if not isinstance(w_, (str, Path)):
                ctx.count('bad_dir')
                ctx.expect(any('working_dir' in x for x in ws), 'no warning for a working directory which cannot be used', ws)
            if b not in good:
                ctx.count('bad_backend')
                ctx.expect(any('backend' in x for x in ws), 'no warning for an unknown backend', ws)
            else:
                ctx.expect(not any('backend' in x for x in ws), 'warning about a valid argument', ws)
            ctx.expect(type(m.opt_log) is (FileLogger if g('summary_files', 0) > 2 else BaseLogger), 'kind of log', type(m.opt_log))
            ctx.expect(m.is_initialised, 'not initialised by a setup', '')
            ctx.sig(tuple(sorted(kw)), repr(bk), str(wd), case['vseed'] % 97)
            if not case['start']:
                return
            wmod.attach(m, w)
            kw0 = dict(max_jobs=m.max_jobs)
            _, exc, ws = quiet(m.start_manager)
            if isinstance(exc, simmod.Stuck):
                ctx.viol('no progress', repr(exc))
            ctx.expect(exc is None, 'run fails', repr(exc))
            ctx.expect(m.max_jobs == kw0['max_jobs'], 'argument changed by the run', '')
            for e in w.of('opt_new'):
                ctx.expect(e['backend'] == ('threads' if m.opts_daemonic else 'processes'), 'optimizer given another backend', e['backend'])
                ctx.expect(bool(e['detailed']) == bool(exp['is_log_detailed']), 'optimizer given another kind of log', e['detailed'])
            kinds = {a.kind for n, a in S.actors.items() if n.startswith('Opt')}
            ctx.expect(kinds <= {'process' if proc else 'thread'}, 'optimizers run by another backend', kinds)
            used = max([sum(1 for _ in e['live'] if str(_).startswith('Opt')) for e in w.of('check')] or [0])
            ctx.expect(used <= m.max_jobs, 'more optimizers than jobs', used)
            if 'killing_conditions' not in kw:
                ctx.expect(not w.of('hunt') and m.hunt_counter == 0, 'hunting although not asked for', '')
            if not g('share_best_solutions', False):
                ctx.expect(not w.of('opt_inject'), 'sharing although not asked for', '')
    finally:
        os.chdir(here)


def make_checkpoint(case, ctx, d, **kw):
    """ A simulated run which leaves checkpoints; returns the trace and archives. """
    t = sc.run(case, d, **kw)
    v = orc.View(t)
    if not orc.run_ok(v, ctx):
        return None
    out = [x for x in chain.checkpoints_of(t.W, 0) if x['path'] is not None and x['path'].exists()]
    return t, v, out


def damage(src, dst, how, frac, k, rng):
    """ Writes a damaged copy; returns (path, load kwargs, must fail). """
    raw = src.read_bytes()
    n = len(raw)
    if how == 'truncate':
        dst.write_bytes(raw[:int(n * frac * 0.95)])
        return dst, {}, True
    if how == 'cut':
        a = int((n - 40) * frac) + 12
        dst.write_bytes(raw[:a] + raw[a + 1 + k % 300:])
        return dst, {}, False
    if how == 'flip':
        b = bytearray(raw)
        b[int((n - 1) * frac)] ^= 1 << (k % 8)
        dst.write_bytes(bytes(b))
        return dst, {}, False
    if how == 'empty':
        dst.write_bytes(b'')
        return dst, {}, True
    if how == 'text':
        dst.write_text('this is not a checkpoint\n' * 20)
        return dst, {}, True
    if how == 'missing':
        return dst, {}, True
    if how == 'directory':
        dst.mkdir()
        return dst, {}, True
    members = []
    with tarfile.open(src, 'r:gz') as tf:
        for ti in tf.getmembers():
            members.append([ti, tf.extractfile(ti).read() if ti.isfile() else None])

    def isat(ti, what):
        nm = ti.name.lstrip('./')
        return nm == what or nm.startswith(what + '/')

    must = True
    kw = {}
    new = []
    opt_files = [ti.name for ti, x in members if isat(ti, 'optimizers') and x is not None]
    for ti, data in members:
        if how == 'no_manager' and isat(ti, 'manager') or how == 'no_opt_log' and isat(ti, 'opt_log') or \
                how == 'no_optimizers' and isat(ti, 'optimizers'):
            continue
        if how == 'no_task' and isat(ti, 'task'):
            continue
        if how in ('bad_loader', 'not_callable') and isat(ti, 'task'):
            continue
        if data is not None:
            if how == 'manager_trunc' and isat(ti, 'manager') or how == 'task_trunc' and isat(ti, 'task') or \
                    how == 'optlog_trunc' and isat(ti, 'opt_log'):
                data = data[:int(len(data) * frac * 0.98)]
            if how == 'manager_garbage' and isat(ti, 'manager') or how == 'task_garbage' and isat(ti, 'task') or \
                    how == 'optlog_garbage' and isat(ti, 'opt_log') or how == 'opts_garbage' and isat(ti, 'optimizers'):
                data = [b'', b'\x00' * 50, b'garbage', b'\x80\x04K', bytes(rng.getrandbits(8) for _ in range(200))][k % 5]
            if how == 'manager_list' and isat(ti, 'manager'):
                data = pickle.dumps([[1, 2], 5, None, 'x'][k % 4])
            if how == 'one_opt' and ti.name == (opt_files or [None])[0]:
                data = b'garbage'
        new.append((ti, data))
    with tarfile.open(dst, 'w:gz') as tf:
        for ti, data in new:
            ti = copy.copy(ti)
            if data is not None:
                ti.size = len(data)
                tf.addfile(ti, io.BytesIO(data))
            else:
                tf.addfile(ti)
    if how == 'bad_loader':
        def loader(p):
            raise OSError('cannot load the task')
        kw = {'task_loader': loader}
    elif how == 'not_callable':
        kw = [{'task': 5}, {'task': NotCallable()}, {'task_loader': lambda p: None}, {'task_loader': lambda p: 'task'}][k % 4]
    elif how == 'few_jobs':
        kw = {'max_jobs': 1}
        must = len(opt_files) > 1
    elif how == 'str_jobs':
        kw = {'max_jobs': 'three'}
        must = None                       # not specified
    elif how == 'one_opt':
        must = len(opt_files) == 1
    elif how in ('opts_garbage',):
        must = len(opt_files) > 0
    elif how == 'no_optimizers':
        must = len(opt_files) > 0
    elif how in ('optlog_trunc', 'optlog_garbage', 'no_opt_log') and not any(isat(ti, 'opt_log') for ti, _ in members):
        must = None
    return dst, kw, must


def r_damaged(case, ctx, d):
    (d / 'first').mkdir()
    r = make_checkpoint(case, ctx, d / 'first')
    if r is None:
        return
    t0, v0, cps = r
    cps = [x for x in cps if x['saved']] or cps
    if not cps:
        return
    rng = random.Random(case['seed'])
    src = rng.choice(cps)
    (d / 'dmg').mkdir()

    ended = []

    def refuse(m):
        ref = {k: flat(v) for k, v in state(m).items()}
        for n, (how, frac, k) in enumerate(case['dmg']):
            path, kw, must = damage(src['path'], d / 'dmg' / f'{n}.tar.gz', how, frac, k, rng)
            before = sorted(p.name for p in d.rglob('*'))
            _, exc, ws = quiet(m.load_checkpoint, path, **kw)
            what = (how, round(frac, 3), k, repr(exc)[:200])
            if exc is None:
                if must:
                    ctx.viol('damaged checkpoint loaded', what)
                ctx.expect(m.is_initialised, 'load neither fails nor initialises', what)
                ctx.count('loaded_nevertheless')
                ended.append(n)
                return
            now = {k: flat(v) for k, v in state(m).items()}
            if now != ref:
                ctx.viol('something of a checkpoint which could not be loaded remains',
                         (what, [k for k in set(now) | set(ref) if now.get(k) != ref.get(k)][:6]))
            ctx.expect(sorted(p.name for p in d.rglob('*')) == before, 'files left by a load which failed', what)
            is_refused(m, ctx, d, what)
            ctx.count('load_refused')
            ctx.count({'truncate': 'damaged_truncate', 'flip': 'damaged_flip', 'cut': 'damaged_flip', 'missing': 'missing_file',
                       'bad_loader': 'bad_task', 'not_callable': 'bad_task', 'no_task': 'bad_task', 'few_jobs': 'too_few_jobs',
                       'manager_trunc': 'damaged_pickle', 'manager_garbage': 'damaged_pickle', 'manager_list': 'damaged_pickle',
                       'task_garbage': 'damaged_pickle', 'task_trunc': 'damaged_pickle'}.get(how, 'damaged_member'))

    if case['then'] == 'setup':
        S = simmod.Sim(1)
        set_world(World(S, chain.mk_plans(case)))
        with S:                            # are all refused?
            refuse(GloMPOManager())
        if ended:
            return
        c2 = dict(case, chk=None, fmax=case['fmax'], seed=case['seed'] + 1, overrides=None)

        def make():
            m = GloMPOManager()
            for f in (d / 'dmg').iterdir():
                if f.is_dir():
                    f.rmdir()
                else:
                    f.unlink()
            refuse(m)
            return m
        twin(c2, ctx, make, d)
        ctx.count('setup_after_load_refused')
    else:
        # the intact checkpoint can still be loaded
        res = []
        for second in (False, True):
            S = simmod.Sim(case['sim_seed'], case['policy'], case['max_steps'], case['eof'], case['opt_burst'])
            np.random.seed(case['seed'] % 2 ** 31)
            w = World(S, chain.mk_plans(case))
            w.session = 1
            R = chain.Resume(t0.W, src)
            w.rec = list(R.rec)
            set_world(w)
            with S:
                m = GloMPOManager()
                if second:
                    refuse(m)
                    if ended:
                        return
                    w.ev.clear()
                _, exc, ws = quiet(m.load_checkpoint, src['path'], working_dir=d / f'w{second}', convergence_checker=RecChecker(60, 80))
                if exc is not None:
                    ctx.viol('checkpoint cannot be loaded' + (' after a damaged one' if second else ''), repr(exc))
                    return
                res.append(({k: v for k, v in state(m).items()}))
                ctx.expect(m.is_initialised, 'not initialised by a load', '')
        a, b = res
        for k in set(a) | set(b):
            if k in ('working_dir',):
                continue
            x, y = a.get(k), b.get(k)
            if isinstance(x, (int, float, str, bool, type(None))):
                ctx.expect(repr(x) == repr(y), 'attribute differs when loaded after a damaged checkpoint', (k, x, y))
            elif isinstance(x, (list, dict, set)):
                ctx.expect(type(x) is type(y) and len(x) == len(y), 'attribute differs when loaded after a damaged checkpoint', (k, x, y))
            else:
                ctx.expect(type(x) is type(y), 'attribute differs when loaded after a damaged checkpoint', (k, x, y))
        ctx.count('load_after_load_refused')
    ctx.sig(tuple(x[0] for x in case['dmg']), case['dmg'][0][2], t0.S.sig)


def r_once(case, ctx, d):
    (d / 'first').mkdir()
    r = make_checkpoint(case, ctx, d / 'first')
    if r is None:
        return
    t0, v0, cps = r
    cps = [x for x in cps if x['saved']]
    if not cps:
        return
    src = cps[0]

    def second(m, w=None):
        before = {k: flat(v) for k, v in state(m).items()}
        files = sorted(p.name for p in d.rglob('*'))
        if case['how'] == 'setup':
            kw = dict(valid_kw(d), max_jobs=17, bounds=[(5, 6)] * 2, summary_files=2, hunt_frequency=77)
            _, exc, ws = quiet(m.setup, **kw)
        elif case['how'] == 'bad_setup':
            _, exc, ws = quiet(m.setup, task=None, bounds=[(1, 0)], opt_selector=None, max_jobs=-1)
        elif case['how'] == 'load':
            _, exc, ws = quiet(m.load_checkpoint, src['path'], max_jobs=17, working_dir=d / 'other')
        else:
            _, exc, ws = quiet(m.load_checkpoint, d / 'nothing here')
        ctx.expect(exc is None, 'second initialisation raises', (case['how'], repr(exc)))
        ctx.expect(any('already initialised' in x for x in ws), 'second initialisation without warning', (case['how'], ws))
        now = {k: flat(v) for k, v in state(m).items()}
        ctx.expect(now == before, 'second initialisation changes the manager',
                   lambda: (case['how'], [k for k in now if now.get(k) != before.get(k)]))
        ctx.expect(sorted(p.name for p in d.rglob('*')) == files, 'second initialisation makes files', case['how'])
        ctx.expect(m.is_initialised, 'second initialisation changes the manager', case['how'])
        ctx.count('second_' + case['how'].replace('bad_', ''))

    if case['first'] == 'setup':
        def make_run(again):
            k = [0]

            def prepare(m, S, w):
                if not again:
                    return
                if case['when'] == 'before':
                    fr, S.frozen = S.frozen, True
                    try:
                        second(m)
                    finally:
                        S.frozen = fr
                elif case['when'] == 'during':
                    def point(mm):
                        k[0] += 1
                        if k[0] == 3:
                            fr, S.frozen = S.frozen, True
                            try:
                                second(mm)
                            finally:
                                S.frozen = fr
                    w.user_points.append(point)
            return prepare
        out = []
        for again in (False, True):
            wd = d / f'r{again}'
            wd.mkdir()
            out.append(sc.run(dict(case, chk=None), wd, prepare=make_run(again)))
        a, b = out
        if not orc.run_ok(orc.View(a), ctx):
            return
        if case['when'] == 'after':
            second(b.m)
        ra, rb = [[(r['opt'], r['seq'], repr(r['fx'])) for r in t.W.rec] for t in (a, b)]
        ctx.expect(b.exc is None and ra == rb, 'second initialisation changes the run', (repr(b.exc), len(ra), len(rb)))
    else:
        R = chain.Resume(t0.W, src)
        S, w, m = chain.load(case, d, t0.W, R, case['sim_seed'] + 1, load_kw={'working_dir': d / 'first'},
                             checker=RecChecker(case['fmax'] if case['fmax'] else math.inf))
        try:
            if case['when'] == 'during':
                def point(mm, k=[0]):
                    k[0] += 1
                    if k[0] == 3:
                        fr, S.frozen = S.frozen, True
                        try:
                            second(mm)
                        finally:
                            S.frozen = fr
                w.user_points.append(point)
            if case['when'] == 'before':
                second(m)
            t = sc.start(m, S, w)
            t.c = case
            ctx.expect(t.exc is None, 'run fails', repr(t.exc))
            if case['when'] == 'after':
                second(m)
        finally:
            chain.leave(S)
    ctx.sig(case['how'], case['first'], case['when'], t0.S.sig)


def used_overrides(case, ctx, d, m, w, S, kw, src):
    """ The resumed run follows the changed arguments. """
    wd = Path(m.working_dir)
    if 'working_dir' not in kw and any(wd.glob('*')):
        return
    if m.converged:
        return
    wmod.attach(m, w)
    m.end_timeout = 5 if m.end_timeout is None else m.end_timeout
    f0, h0, n_chk = m.f_counter, m.hunt_counter, len(m.checkpoint_history)
    _, exc, ws = quiet(m.start_manager)
    ctx.expect(exc is None, 'resumed run with changed arguments fails', (sorted(kw), repr(exc)))
    if exc is not None:
        return
    ctx.count('resumed')
    if any('Aborting start' in x for x in ws):
        return
    files = {p.name for p in wd.iterdir()}
    lvl = m.summary_files
    if w.rec:
        ctx.expect(('glompo_log.h5' in files) == (lvl >= 3), 'level of output changed at loading not followed', (lvl, files))
        ctx.expect(any(f.startswith('trajectories') for f in files) == (lvl >= 2), 'level of output changed at loading not followed', (lvl, files))
    ctx.expect(('glompo_manager_log.yml' in files) == (lvl >= 1), 'level of output changed at loading not followed', (lvl, files))
    if m.killing_conditions is None:
        ctx.expect(m.hunt_counter == h0 and not w.of('hunt'), 'hunting although removed at loading', '')
    if kw.get('hunt_frequency') == 1 and m.killing_conditions is not None and len({r['opt'] for r in w.rec}) > 1 and m.f_counter - f0 > 20:
        ctx.expect(m.hunt_counter > h0, 'no hunting at the frequency given at loading', (f0, m.f_counter))
    if not m.incumbent_sharing:
        ctx.expect(not w.of('opt_inject'), 'sharing although removed at loading', '')
    if m.checkpoint_control is None:
        ctx.expect(len(m.checkpoint_history) == n_chk, 'checkpoints although removed at loading', m.checkpoint_history)
    for e in w.of('opt_new'):
        ctx.expect(e['backend'] == ('threads' if m.opts_daemonic else 'processes'), 'backend given at loading not used', e['backend'])
    kinds = {a.kind for n, a in S.actors.items() if n.startswith('Opt')}
    ctx.expect(kinds <= {'process' if m.proc_backend else 'thread'}, 'backend given at loading not used', kinds)


def r_override(case, ctx, d):
    (d / 'first').mkdir()
    unp = case['oseed'] % 3 == 0
    r = make_checkpoint(case, ctx, d / 'first', **({'task': UnpicklableTask()} if unp else {}))
    if r is None:
        return
    t0, v0, cps = r
    if not cps:
        return
    rng = random.Random(case['oseed'])
    src = rng.choice(cps)
    nopt = len(src['saved'])
    need = sum(w_ for w_ in [1] * nopt)
    chk, gen_, hun, sel, ctl = RecChecker(1000), RecGenerator(9), RecHunter(0.9), sc._selector(case), CheckpointingControl(checkpointing_dir=d / 'cc')
    poss = dict(working_dir=str(d / 'new_dir'), overwrite_existing=True, max_jobs=max(need, 1) + rng.randint(8, 30),
                backend=rng.choice(['threads', 'processes', 'processes_forced']), convergence_checker=chk, x0_generator=gen_,
                killing_conditions=rng.choice([hun, None]), share_best_solutions=not case['share'], hunt_frequency=rng.choice([1, 12345]),
                status_frequency=rng.choice([7, 10 ** 6]), checkpoint_control=rng.choice([ctl, None]), summary_files=rng.choice([0, 1, 2, 3]),
                force_terminations_after=rng.choice([-1, 44, 0]), aggressive_kill=not case['aggressive'], end_timeout=rng.choice([0, 3, None]),
                split_printstreams=False, opt_selector=sel)
    kw = {k: v for k, v in poss.items() if rng.random() < 0.4}
    extra = {}
    if rng.random() < 0.4:
        extra = {rng.choice(['nonsense', 'max_job', 'taskx', 'hunting']): 5}
        ctx.count('unknown_key')
    task = SimTask()
    targs = {}
    if unp:
        mode = rng.choice(['task', 'loader', 'loader_fails', 'loader_bad'])
        def failing(p):
            raise OSError('no')
        targs = {'task': dict(task=task), 'loader': dict(task_loader=lambda p: task, task=UnpicklableTask()),
                 'loader_fails': dict(task_loader=failing, task=task), 'loader_bad': dict(task_loader=lambda p: 7, task=task)}[mode]
        if mode != 'task':
            ctx.count('fallback_task')
    loaded, made = [], []
    for use in (False, True):
        S = simmod.Sim(case['sim_seed'], case['policy'], case['max_steps'], case['eof'], case['opt_burst'])
        w = World(S, chain.mk_plans(case))
        w.session = 1
        set_world(w)
        with S:
            m = GloMPOManager()
            _, exc, ws = quiet(m.load_checkpoint, src['path'], **targs, **(dict(kw, **extra) if use else {}))
            if exc is not None:
                ctx.viol('checkpoint cannot be loaded', (sorted(kw), extra, list(targs), repr(exc)))
                return
            if unp:
                ctx.expect(m.task is task, 'task given when loading not used', (list(targs), m.task))
            loaded.append({k: copy.copy(v) if isinstance(v, (list, dict, set)) else v for k, v in vars(m).items()})
            packs = getattr(m, '_optimizer_packs', {})
            made.append({o: type(p.process).__name__ for o, p in packs.items()})
            if use:
                used_overrides(case, ctx, d, m, w, S, kw, src)
    exp = {}
    for k, v in kw.items():
        if k == 'backend':
            exp['proc_backend'] = v != 'threads'
            exp['opts_daemonic'] = v != 'processes_forced'
        elif k == 'force_terminations_after':
            exp['allow_forced_terminations'] = v > 0
        elif k == 'share_best_solutions':
            exp['incumbent_sharing'] = v
        elif k == 'working_dir':
            exp[k] = Path(v).resolve()
        else:
            exp[k] = v
    sa, sb = loaded
    for k, v in exp.items():
        got = sb[k]
        ok = got is v or (isinstance(v, (int, float, bool, Path)) and got == v)
        ctx.expect(ok, 'argument given when loading does not replace the stored one', (k, repr(v), repr(got)))
    ctx.count('overridden', len(kw))
    for k in sorted(set(sa) | set(sb)):
        if k in exp or k in SKIP or k in ('_too_long', 'converged'):
            continue
        if k == 'opt_log' and 'summary_files' in kw:
            continue
        x, y = sa.get(k), sb.get(k)
        if isinstance(x, (int, float, str, bool, Path, type(None))):
            ctx.expect(repr(x) == repr(y), 'argument not given when loading changes something', (k, x, y, sorted(kw)))
        else:
            ctx.expect(type(x) is type(y), 'argument not given when loading changes something', (k, x, y, sorted(kw)))
            if isinstance(x, (list, dict, set, tuple)):
                ctx.expect(len(x) == len(y), 'argument not given when loading changes something', (k, x, y, sorted(kw)))
    ctx.expect(sorted(made[0]) == sorted(made[1]), 'optimizers of the checkpoint differ', '')
    for o, p in made[1].items():
        ctx.expect(('Thread' in p) == (not sb['proc_backend']), 'optimizers of another backend', p)
    ctx.expect(type(sb['opt_log']) is (FileLogger if sb['summary_files'] > 2 else BaseLogger), 'kind of log', sb['opt_log'])
    ctx.expect(sb['f_counter'] == src['end']['f'] and sb['o_counter'] == src['end']['o'], 'counters differ from the checkpoint', '')
    # the changes are used
    ctx.sig(tuple(sorted(kw)), t0.S.sig)


def run(case, ctx):
    with sc.scratch() as d:
        {'invalid': r_invalid, 'valid': r_valid, 'once': r_once, 'damaged': r_damaged, 'override': r_override}[case['kind']](case, ctx, d)
    ctx.count('kind_' + case['kind'])
    ctx.note(kind=case['kind'])
