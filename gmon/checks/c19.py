"""The bundled random and CMA-ES optimizers driven by a scripted manager."""
import contextlib
import io
import math
import os
import random
import shutil
import threading
import warnings

import numpy as np

from gmon import scenario as sc, vtrun
from glompo.optimizers.cmawrapper import CMAOptimizer
from glompo.optimizers.random import RandomOptimizer

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: the real optimizers run against a scripted manager end of the signal pipe and pause flag; every '
             'evaluation, message, pause and saved file is watched and judged online (bounds, promptness, pauses) and at the end '
             '(best point, budget, reports, resumed state)')
LEVEL_NOTE = ('Scripts sampled from VERIF_SEED. The wrapper of the SciPy optimizers runs in another interpreter, which has SciPy; it '
              'takes no commands by design and is compared to SciPy itself. The wrappers of Nevergrad and GFLS cannot run here: '
              'their packages are not installed.')
RULE = ('Optimizer (random or CMA-ES, serial or with 2..4 threads) x dimension 1..6 x bounds x objective (smooth, ties, NaN or '
        'infinities in places or everywhere, constant) x budget x script of commands (stop with and without reason, pause, '
        'checkpoint with saving or passing, injections, unknown messages, several at once, during pauses) at random evaluations; '
        'saved states are resumed up to two times; also stand-alone use and repeated use. Non-trivial: at least 5 evaluations; '
        'distinct: optimizer, script and number of evaluations.')
ASSUMPTIONS = ['The pipe and pause flag stand-ins behave like multiprocessing pipes and events.',
               'With several workers the evaluations of the iteration in progress may finish after a stop or pause.']
CASES = {'quick': 500, 'thorough': 12000}
REQUIRED = ['random', 'cma', 'parallel', 'alone', 'stops', 'pauses', 'saves', 'resumed', 'injections', 'unknown', 'evaluations',
            'budget_exhausted', 'nan', 'passes', 'callbacks', 'reused', 'commands_while_paused', 'best_in_last_evaluation_before_save']
if shutil.which('python3-vt'):
    REQUIRED += ['scipy:' + m for m in ('managed', 'alone', 'callbacks', 'not_converged', 'bounded', 'all_methods')]
HANG = 240
BATCH = 60
METHODS = ['Nelder-Mead', 'Powell', 'CG', 'BFGS', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'trust-constr', 'basinhopping',
           'dual_annealing', 'shgo', 'differential_evolution']


def scipy_case(rng, method):
    nd = rng.randint(1, 4)
    bounds = [[lo, lo + rng.choice([1.0, 4.0, 10.0])] for lo in (rng.choice([-5.0, -1.0, 0.0]) for _ in range(nd))]
    kw = {}
    if method in ('basinhopping', 'dual_annealing', 'differential_evolution'):
        kw = {'niter' if method == 'basinhopping' else 'maxiter': rng.choice([1, 3, 8]), 'seed': rng.randrange(1000)}
    elif method != 'shgo' and rng.random() < 0.4:
        kw = {'options': {'maxfun' if method == 'TNC' else 'maxiter': rng.choice([1, 2, 5])}}
    return {'kind': 'scipy', 'method': method, 'fn': rng.choice(['sphere', 'rastrigin', 'corner', 'abs'] if method not in
                                                                 ('CG', 'BFGS', 'basinhopping') else ['sphere', 'rastrigin', 'abs']),
            'seed': rng.randrange(10 ** 6), 'bounds': bounds, 'x0': [lo + rng.uniform(0.1, 0.9) * (hi - lo) for lo, hi in bounds],
            'kwargs': kw, 'managed': rng.random() < 0.6, 'callback': rng.random() < 0.5}


def scipy_batch(case, ctx):
    out = vtrun.run(case['batch'])
    if out is None:
        ctx.count('scipy_unavailable')
        return
    if not ctx.expect(isinstance(out, list), 'scipy optimizer: hang or crash', out):
        return
    for c, o in zip(case['batch'], out):
        m = c['method']
        if not ctx.expect('exc' not in o, 'scipy optimizer: exception', (c, o.get('tb'))):
            continue
        calls, own = o['calls'], o['own']
        same = lambda a, b: a == b or math.isnan(a) and math.isnan(b)  # noqa
        ctx.expect(len(o['x']) == len(c['x0']) and all(map(math.isfinite, o['x'])), 'scipy optimizer: result malformed', (c, o['x']))
        ctx.expect(math.isclose(o['fx'], o['f'], rel_tol=1e-9, abs_tol=1e-12), 'scipy optimizer: value and point of the result differ', (c, o['fx'], o['f']))
        ctx.expect(o['x'] == own['x'] and same(o['fx'], own['fx']), 'scipy optimizer: not the result SciPy delivers', (c, o['x'], o['fx'], own))
        ctx.expect(o['success'] is own['success'], 'scipy optimizer: not whether it converged', (c, o['success'], own))
        ctx.count('scipy:not_converged', not own['success'])
        ctx.expect(o['seen'] > 0 or not c['callback'] or len(calls) < 6 or not own['success'], 'scipy optimizer: callbacks not called', (c, len(calls)))
        ctx.count('scipy:callbacks', o['seen'])
        if m in ('Nelder-Mead', 'Powell', 'L-BFGS-B', 'TNC', 'dual_annealing', 'differential_evolution', 'shgo'):
            ctx.expect(all(lo - 1e-8 <= v <= hi + 1e-8 for x, _ in calls for v, (lo, hi) in zip(x, c['bounds'])),
                       'scipy optimizer: evaluation outside the bounds', c)
            ctx.count('scipy:bounded')
        if m != 'shgo':
            ctx.expect(any(all(abs(u - v) <= 1e-9 * (1 + abs(v)) for u, v in zip(x, c['x0'])) for x, _ in calls),
                       'scipy optimizer: starting point not evaluated', c)
        if c['managed']:
            ctx.expect([i for i in o['items'] if not isinstance(i, int)] == [[3, x, v] for x, v in calls], 'evaluations not delivered', (c, len(o['items'])))
            ctx.expect(o['items'][-1:] == [3] and sum(isinstance(i, int) for i in o['items']) == 1, 'end marks in the results queue', c)
            ctx.expect(len(o['sent']) == 1 and isinstance(o['sent'][0], list) and o['sent'][0][0] == 0, 'end not reported to the manager', (c, o['sent']))
        ctx.count('scipy:managed' if c['managed'] else 'scipy:alone')
        ctx.count('scipy:evaluations', len(calls))
        ctx.sig('scipy', m, repr(c))
    ctx.count('scipy:all_methods', len({c['method'] for c in case['batch']}) == len(METHODS))
    ctx.note(opt='scipy')


def gen(i, rng, tier):
    if i % BATCH == BATCH // 2:
        return {'opt': 'scipy', 'batch': [scipy_case(rng, m) for m in METHODS]}
    opt = rng.choice(['random', 'cma'])
    c = {'opt': opt, 'nd': rng.randint(1 if opt == 'random' else 2, 6), 'scale': rng.choice([1, 1, 1, 1e-3, 1e4, 100]),
         'shift': rng.choice([0, 0, -5, 3]), 'obj': rng.choice(['smooth', 'smooth', 'ties', 'nan', 'inf', 'allnan', 'const', 'down', 'neg', 'rough']),
         'iters': rng.choice([0, 1, 3, 10, 60, 150]), 'maxiter': rng.choice([1, 2, 5, 15]), 'popsize': rng.choice([None, None, 4, 7, 12]),
         'workers': rng.choice([1, 1, 1, 2, 4]) if opt == 'cma' else 1, 'sigma': rng.choice([0.05, 0.2, 0.5]), 'seed': rng.randrange(10 ** 9),
         'alone': rng.random() < 0.12, 'x0': rng.choice(['mid', 'rand', 'edge', 'rand']), 'inject_freq': rng.choice([None, None, 1, 3]),
         'force_inj': rng.choice([None, True, False]), 'keep': rng.random() < 0.05, 'callback': rng.choice([None] * 8 + [1, 10]),
         'detailed': rng.random() < 0.2, 'sessions': []}
    for s in range(3):
        sc_ = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            what = rng.choice(['stop', 'stopr', 'pause', 'chk', 'chk', 'chk', 'inject', 'inject', 'junk'])
            sc_.append([rng.choice([0, 1, 2, 3, 5, 10, 20, 40, 80]) + rng.randint(0, 3), what, rng.randrange(10 ** 6)])
        sc_.sort(key=lambda e: e[0])
        if rng.random() < 0.6:                 # a stop only in part of the sessions
            sc_ = [e for e in sc_ if e[1] not in ('stop', 'stopr')]
        c['sessions'].append(sc_)
    return c


class Link:
    """ The manager's end of the line: pipe, pause flag and results queue of one optimizer. """

    def __init__(self, case, script, ctx, d, k, nd, bounds):
        self.case, self.ctx, self.d, self.k = case, ctx, d, k
        self.script = [list(e) for e in script]
        self.inbox = []
        self.flag = True
        self.lock = threading.RLock()
        self.n = 0                              # evaluations begun
        self.evals = []                         # (x copy, fx)
        self.put = []                           # results delivered (reference, copy)
        self.sent = []
        self.saves = []                         # (path, evaluations, best then)
        self.nd, self.bounds = nd, bounds
        self.stop_at = None                     # evaluations begun when a stop became available
        self.pause_at = None
        self.stop_seen = False
        self.last_inject = None
        self.n_prepare = 0
        self.finished = None
        self.queue_end = 0
        self.limit = 0
        self.replies = []
        self.chk_open = False
        self.after_release = []

    # -- script
    def due(self):
        with self.lock:
            while self.script and self.script[0][0] <= self.n:
                _, what, s = self.script.pop(0)
                self.issue(what, s)

    def issue(self, what, s):
        rng = random.Random(s)
        if what == 'stop':
            self.inbox.append(1)
            self.mark_stop()
        elif what == 'stopr':
            self.inbox.append((1, rng.choice(['GloMPO Crash', 'Manager termination signal', 'because'])))
            self.mark_stop()
        elif what == 'pause':
            if self.flag:
                self.flag = False
                self.pause_at = self.n
                if rng.random() < 0.5:
                    self.after_release.append((rng.choice(['inject', 'stop', 'junk', 'inject']), s + 1))
        elif what == 'chk':
            if self.chk_open:                   # the manager makes one checkpoint at a time
                return
            self.chk_open = True
            self.inbox.append(2)
            how = rng.choice(['save', 'save', 'save', 'pass', 'inj+save', 'junk+save', 'save+stop'])
            self.replies.append((how, s))
        elif what == 'inject':
            lo, hi = zip(*self.bounds)
            x = [rng.uniform(a, b) for a, b in zip(lo, hi)]
            fx = rng.uniform(-2, 2)
            self.inbox.append((4, x if s % 2 else np.array(x), fx))
        elif what == 'junk':
            self.inbox.append(rng.choice([77, 'abc', (99,), (99, 'x'), None, -1]))

    def mark_stop(self):
        if self.stop_at is None:
            self.stop_at = self.n

    # -- pipe
    def poll(self, timeout=0.0):
        self.due()
        if not self.inbox and timeout is None:
            self.ctx.viol('waits for an instruction which is not to come', f'sent {self.sent[-3:]}')
            raise RuntimeError('harness: no instruction')
        return bool(self.inbox)

    def recv(self):
        m = self.inbox.pop(0)
        c = m if isinstance(m, int) else m[0] if isinstance(m, tuple) else None
        if c == 1:
            self.stop_seen = True
            self.ctx.count('stops')
        elif c == 4:
            self.last_inject = m[1:]
            self.ctx.count('injections')
        elif c == 2:
            self.n_prepare += 1
        elif c == 0:
            self.saves[-1][3:] = [self.stop_seen, self.last_inject]
        elif c == 3:
            pass
        else:
            self.ctx.count('unknown')
        return m

    def send(self, msg):
        self.sent.append(msg)
        key = msg[0]
        if key == 0:
            self.ctx.expect(self.finished is None, 'end reported more than once', f'{self.sent}')
            self.finished = msg
        elif key == 1:
            how, s = self.replies.pop(0) if self.replies else (None, 0)
            if not self.ctx.expect(how is not None, 'pause confirmed without request', f'{self.sent}'):
                return
            if how.startswith('inj'):
                self.issue('inject', s)
            if how.startswith('junk'):
                self.issue('junk', s)
            if how == 'pass':
                self.inbox.append(3)
                self.ctx.count('passes')
            else:
                p = os.path.join(self.d, f'save_{self.k}_{len(self.saves)}')
                self.saves.append([p, self.n, len(self.evals), self.stop_seen, None])
                self.inbox.append((0, p))
                self.ctx.count('saves')
            if how == 'save+stop':
                self.after_release.append(('stop', s))

    # -- pause flag
    def is_set(self):
        return self.flag

    def clear(self):
        self.flag = False
        self.pause_at = self.n

    def set(self):
        self.flag = True

    def wait(self, timeout=None):
        with self.lock:
            if not self.flag:
                self.ctx.count('pauses')
                while self.after_release:
                    new = self.stop_at is None
                    self.issue(*self.after_release.pop(0))
                    if new and self.stop_at is not None:
                        self.stop_at += self.iteration     # looks at messages once per iteration, before the pause
                    self.ctx.count('commands_while_paused')
                self.flag = True
                self.chk_open = False
                self.pause_at = None
        return True


class Results:
    """ The results queue. """
    def __init__(self, link):
        self.link = link

    def put_nowait(self, item):
        with self.link.lock:
            self.link.put.append((item, np.array(item.x, copy=True), item.fx))

    def put(self, item, *a, **k):
        if isinstance(item, int):
            self.link.queue_end += 1
        else:
            self.put_nowait(item)


class Objective:
    def __init__(self, case, link, bounds, ctx):
        self.case, self.link, self.ctx = case, link, ctx
        self.b = np.array(bounds)

    def value(self, x, n):
        o = self.case['obj']
        u = (np.asarray(x, float) - self.b[:, 0]) / (self.b[:, 1] - self.b[:, 0])
        h = float(np.sum(np.abs(np.sin(u * 1000)))) % 1
        if o == 'ties':
            return float(int(h * 4))
        if o == 'nan':
            return math.nan if h < 0.4 else float(np.sum(u ** 2))
        if o == 'inf':
            return math.inf if h < 0.4 else float(np.sum(u ** 2))
        if o == 'allnan':
            return math.nan if n % 2 else math.inf
        if o == 'const':
            return 1.0
        if o == 'down':
            return 1000.0 - n
        if o == 'neg':
            return -float(np.sum(u ** 2)) * 1e6
        if o == 'rough':
            return h
        return float(np.sum((u - 0.3) ** 2))

    def __call__(self, x):
        L = self.link
        with L.lock:
            L.n += 1
            n = L.n
            for at, what in ((L.stop_at, 'evaluated after a stop'), (L.pause_at, 'evaluated while paused')):
                if at is not None and n - at > L.limit:
                    self.ctx.viol(what, f'{n - at} evaluations after it, {L.limit} allowed; {self.case["opt"]} {self.case["workers"]}')
                    L.stop_at = L.pause_at = None
            L.due()
            v = np.array(x, dtype=float, copy=True)
            if L.finished is not None:
                self.ctx.viol('evaluated after reporting its end', f'evaluation {n}')
            if v.shape != (L.nd,) or not (np.all(v >= self.b[:, 0]) and np.all(v <= self.b[:, 1])):
                self.ctx.viol('point outside the bounds', f'{v} outside {self.b.tolist()}')
            fx = self.value(v, n)
            L.evals.append((v, fx))
            self.ctx.count('evaluations')
            if fx != fx:
                self.ctx.count('nan')
        return fx

    def detailed_call(self, x):
        return [self(x), 'extra', 3]


def best_of(evals):
    b = None
    for x, f in evals:
        if f == f and f < (b[1] if b else math.inf):
            b = (x, f)
    return b


def close(a, b, width):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * width))


def judge(case, ctx, opt, link, res, before, bounds, tag, generations=None):
    """ before: evaluations which belong to the resumed state. """
    width = max(b - a for a, b in bounds)
    evals = before + link.evals
    best = best_of(evals)
    pairs_exact = case['opt'] == 'random'
    complete = case['workers'] == 1 or generations is not None and generations * opt.es.popsize == len(evals)
    if res is None:
        ctx.viol('no result returned', tag)
        return
    if best is None:
        ctx.expect(res.fx is None or not res.fx < math.inf, 'result value never evaluated', f'{tag}: {res.fx}')
    else:
        if complete:
            ctx.expect(res.fx == best[1], 'result is not the best point evaluated', f'{tag}: {res.fx} instead of {best[1]} of {len(evals)} ({case["opt"]} {case["obj"]})')
        else:
            ctx.expect(res.fx >= best[1], 'result value never evaluated', f'{tag}: {res.fx} below {best[1]}')
        if res.fx < math.inf:
            ctx.expect(any(f == res.fx and (np.array_equal(x, res.x) if pairs_exact else close(x, res.x, width)) for x, f in evals),
                       'result point does not belong to its value', f'{tag}: {res.x} {res.fx}')
    for item, x, fx in link.put:
        ctx.expect(np.array_equal(np.asarray(item.x, float), x), 'delivered point changed afterwards', f'{item} was {x}')
        ctx.expect(any(np.array_equal(x, e[0]) and (e[1] == fx or fx != fx) for e in link.evals), 'delivered result was not evaluated', f'{x} {fx}')


def make(case, cls, link=None):
    kw = {}
    if link is not None:
        kw = dict(_opt_id=1, _signal_pipe=link, _results_queue=Results(link), _pause_flag=link)
    if cls is RandomOptimizer:
        return cls(iters=case['iters'], is_log_detailed=case['detailed'], **kw)
    o = dict(verbose=False, maxiter=case['maxiter'], keep_files=case['keep'], injection_frequency=case['inject_freq'],
             force_injects=case['force_inj'], seed=case['seed'] % 10 ** 6 + 1)
    if case['popsize']:
        o['popsize'] = case['popsize']
    return cls(workers=case['workers'], backend='threads', is_log_detailed=case['detailed'], **o, **kw)


def popsize_of(case):
    return case['popsize'] or (case['workers'] if case['workers'] > 1 else 4 + int(3 * np.log(case['nd'])))


def run(case, ctx):
    if case['opt'] == 'scipy':
        return scipy_batch(case, ctx)
    cwd = os.getcwd()
    with sc.scratch() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        os.mkdir(d / 'cwd')
        os.chdir(d / 'cwd')
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                go(case, ctx, str(d))
            left = os.listdir('.')
            ctx.expect(case['keep'] or not left, 'files nobody asked for', f'{left}')
        finally:
            os.chdir(cwd)
        ctx.expect(not out.getvalue() or case['opt'] == 'random', 'prints although not verbose', out.getvalue()[:200])


def go(case, ctx, d):
    rng = random.Random(case['seed'])
    np.random.seed(case['seed'] % 2 ** 31)
    nd = case['nd']
    bounds = []
    for _ in range(nd):
        a = case['shift'] * case['scale'] + (rng.uniform(-1, 1) * case['scale'] if case['shift'] else 0)
        bounds.append((a, a + case['scale'] * rng.uniform(0.8, 1.2)))
    x0 = [0.5 * (a + b) if case['x0'] == 'mid' else a if case['x0'] == 'edge' else rng.uniform(a, b) for a, b in bounds]
    cls = RandomOptimizer if case['opt'] == 'random' else CMAOptimizer
    ctx.count(case['opt'])
    ctx.count('parallel', case['workers'] > 1)
    ckw = {} if cls is RandomOptimizer else {'sigma0': case['sigma'] * case['scale']}
    limit = 0 if cls is RandomOptimizer else popsize_of(case) - (1 if case['workers'] == 1 else 0)
    budget = case['iters'] if cls is RandomOptimizer else case['maxiter'] * popsize_of(case)

    if case['alone']:
        ctx.count('alone')
        opt = make(case, cls)
        for rep in range(1 if cls is RandomOptimizer else 2):
            link = Link(case, [], ctx, d, rep, nd, bounds)
            link.limit = 10 ** 9
            cb = None
            if case['callback']:
                cb = lambda: len(link.evals) >= case['callback']
            res = opt.minimize(Objective(case, link, bounds, ctx), list(x0), bounds, callbacks=cb, **ckw)
            judge(case, ctx, opt, link, res, [], bounds, f'alone {rep}', None if cls is RandomOptimizer else opt.es.countiter)
            ctx.expect(len(link.evals) <= budget, 'budget exceeded', f'{len(link.evals)} of {budget}')
            ctx.count('reused', rep == 1)
            if cls is CMAOptimizer and not case['callback']:
                ctx.expect(bool(res.success) == (math.isfinite(res.fx)), 'success of an ordinary convergence', f'{res.success} {res.fx}')
                ctx.expect(close(link.evals[0][0], x0, case['scale']), 'starting point not evaluated', f'{link.evals[0][0]} {x0}')
            if case['callback']:
                ctx.count('callbacks')
                lim = max(case['callback'], 1) if cls is RandomOptimizer else case['callback'] + popsize_of(case) - 1
                ctx.expect(len(link.evals) <= lim, 'evaluated after the callback stopped it', f'{len(link.evals)} {lim}')
        ctx.sig(case['opt'], 'alone', len(link.evals), case['seed'])
        return

    before = []
    opt = None
    path = None
    total = 0
    for k, script in enumerate(case['sessions']):
        link = Link(case, script, ctx, d, k, nd, bounds)
        link.limit = limit
        link.iteration = 1 if cls is RandomOptimizer else popsize_of(case)
        if path is None:
            opt = make(case, cls, link)
        else:
            opt = cls.checkpoint_load(path, _opt_id=1, _signal_pipe=link, _results_queue=Results(link), _pause_flag=link,
                                      workers=case['workers'], backend='threads')
            opt.workers = case['workers']
            ctx.expect(opt.is_restart, 'resumed optimizer does not know it is resumed', '')
            ctx.expect(opt.is_log_detailed == case['detailed'], 'resumed with other settings', 'is_log_detailed')
            ctx.count('resumed')
            mean0 = None if cls is RandomOptimizer else opt.es.countiter
            if inj is not None:
                ctx.expect(close(opt.incumbent['x'], inj[0], case['scale']) and opt.incumbent['fx'] == inj[1],
                           'incumbent lost over resume', f'{opt.incumbent} {inj}')
        cb = None
        res = opt._minimize(Objective(case, link, bounds, ctx), [0] * nd if path else list(x0), np.array(bounds), cb,
                            **({} if path else ckw))
        gens = None if cls is RandomOptimizer else opt.es.countiter
        judge(case, ctx, opt, link, res, before, bounds, f'session {k}', gens)
        n = len(before) + len(link.evals)
        total += len(link.evals)
        stopped = link.stop_seen or was_stopped if k else link.stop_seen
        if cls is RandomOptimizer:
            ctx.expect(n <= budget, 'budget exceeded', f'{n} of {budget}')
            if not stopped:
                ctx.expect(n == budget, 'budget not used although never stopped', f'{n} of {budget}, session {k}')
                ctx.count('budget_exhausted')
        else:
            if case['workers'] == 1:
                ctx.expect(n <= budget, 'budget exceeded', f'{n} of {budget}')
                ctx.expect(gens * opt.es.popsize == n, 'iterations lost over resume', f'{gens} x {opt.es.popsize} vs {n}')
            ctx.expect(gens <= case['maxiter'], 'budget exceeded', f'{gens} iterations')
            ctx.count('budget_exhausted', gens == case['maxiter'])
            if not path and link.evals:
                ctx.expect(any(close(e[0], x0, case['scale']) for e in link.evals[:popsize_of(case)]) or stopped and case['workers'] > 1,
                           'starting point not evaluated', f'{x0}')
            if not stopped and res is not None:
                ctx.expect(bool(res.success) == math.isfinite(res.fx), 'success of an ordinary convergence', f'{res.success} {res.fx}')
        ctx.expect(link.finished is not None, 'end not reported to the manager', f'{link.sent[-2:]}')
        ctx.expect(link.queue_end == 1, 'end marks in the results queue', link.queue_end)
        ctx.expect([m for m in link.sent if m[0] == 1] == [(1, None)] * link.n_prepare, 'checkpoint requests not confirmed once each',
                   f'{link.n_prepare} {link.sent}')
        if link.last_inject is not None:
            ctx.expect(opt.incumbent['fx'] == link.last_inject[1] and np.array_equal(opt.incumbent['x'], link.last_inject[0]),
                       'injected solution is not the incumbent', f'{opt.incumbent} instead of {link.last_inject}')
        ctx.expect(len(link.put) == len(link.evals), 'evaluations not delivered', f'{len(link.put)} of {len(link.evals)}')
        for p, *_ in link.saves:
            ctx.expect(os.path.exists(p), 'nothing saved', p)
        if k == len(case['sessions']) - 1 or not link.saves:
            break
        path, n_started, n_done, was_stopped, inj = link.saves[rng.randrange(len(link.saves))]
        if case['workers'] > 1:
            break                             # what had been told when it was saved is not visible from outside: see below
        before = before + link.evals[:n_done]
        if n_done and best_of(before) and best_of(before)[0] is link.evals[n_done - 1][0]:
            ctx.count('best_in_last_evaluation_before_save')
    if case['workers'] > 1 and path and not was_stopped:
        link2 = Link(case, [], ctx, d, 9, nd, bounds)
        link2.limit = 10 ** 9
        opt = cls.checkpoint_load(path, _opt_id=1, _signal_pipe=link2, _results_queue=Results(link2), _pause_flag=link2,
                                  workers=case['workers'], backend='threads')
        opt.workers = case['workers']
        g0 = opt.es.countiter
        ctx.expect(g0 * opt.es.popsize <= n_started, 'saved state is ahead of the evaluations', f'{g0} {n_started}')
        res = opt._minimize(Objective(case, link2, bounds, ctx), [0] * nd, np.array(bounds))
        ctx.expect(opt.es.countiter <= case['maxiter'] and len(link2.evals) == (opt.es.countiter - g0) * opt.es.popsize,
                   'iterations lost over resume', f'{g0} {opt.es.countiter} {len(link2.evals)}')
        ctx.expect(link2.finished is not None and link2.queue_end == 1, 'end not reported to the manager', 'parallel resume')
        b = best_of(link2.evals)
        if b:
            ctx.expect(res.fx <= b[1], 'result is not the best point evaluated', f'resumed: {res.fx} {b[1]}')
        ctx.count('resumed')
    ctx.note(evaluations=total, opt=case['opt'], workers=case['workers'])
    if total >= 5:
        ctx.sig(case['opt'], case['obj'], str(case['sessions']), total)
