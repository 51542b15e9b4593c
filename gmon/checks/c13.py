"""Built-in hunting conditions against independent reference predicates, over the in-memory and the file log."""
import contextlib
import copy
import datetime
import math
import random
from fractions import Fraction

import numpy as np

from gmon import scenario as sc
from glompo.common.namedtuples import IterationResult
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.hunters import (BestUnmoving, EvaluationsUnmoving, LastPointsInvalid, MinFuncCalls, ParameterDistance,
                            StepSize, TimeAnnealing, TypeHunter, ValueAnnealing)
from glompo.optimizers.random import RandomOptimizer
from glompo.optimizers.baseoptimizer import BaseOptimizer

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: every built-in hunting condition is called on generated evaluation histories held by the '
             'real logs and its answers are compared with independently written predicates (frequencies for random ones)')
LEVEL_NOTE = ('Reference predicates in exact rational arithmetic where the documentation gives a formula; answers within '
              'rounding of the documented threshold are not judged. Random conditions are judged by frequency (6 sigma) and '
              'exactly in the never/always cases. Histories sampled from VERIF_SEED.')
RULE = ('A log with 2..6 optimizers with interleaved histories of 0..40 points (constant, drifting, stepping, non-finite '
        'values, clustered points), each condition with generated parameters asked for several hunter/victim pairs on the '
        'in-memory log, the file log and the file log with its cache cleared. Non-trivial: a deterministic condition whose '
        'answer is judged; distinct: condition, parameters, history and answer.')
ASSUMPTIONS = ['Conditions are asked about victims with at least one recorded point (as the manager does) except where the '
               'documentation defines the answer for too short histories.',
               'An infinite best value `calls` evaluations ago is not judged for BestUnmoving (text and formula disagree).']
CASES = {'quick': 2500, 'thorough': 60000}
REQUIRED = ['BestUnmoving:True', 'BestUnmoving:False', 'EvaluationsUnmoving:True', 'EvaluationsUnmoving:False',
            'LastPointsInvalid:True', 'LastPointsInvalid:False', 'MinFuncCalls:True', 'MinFuncCalls:False',
            'ParameterDistance:True', 'ParameterDistance:False', 'StepSize:True', 'StepSize:False', 'TypeHunter:True',
            'TypeHunter:False', 'TimeAnnealing', 'ValueAnnealing', 'never', 'always', 'file_log', 'file_log_cleared',
            'refused', 'nonfinite', 'too_short', 'nan']

NAN, INF = math.nan, math.inf


class AOpt(BaseOptimizer):
    def minimize(self, *a, **k):
        pass

    def callstop(self, *a):
        pass


class BOpt(AOpt):
    pass


TYPES = [AOpt, BOpt, RandomOptimizer]


def gen(i, rng, tier):
    n = rng.randint(2, 6)
    dim = rng.choice([1, 2, 3, 5])
    nice = rng.random() < 0.6
    width = [rng.choice([1, 2, 4, 8, 100]) if nice else rng.uniform(0.1, 50) for _ in range(dim)]
    low = [rng.choice([-4, 0, 1]) if nice else rng.uniform(-20, 20) for _ in range(dim)]

    def num(v):
        return round(v * 8) / 8 if nice else v

    opts = []
    for o in range(n):
        k = rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
        style = rng.choice(['const', 'down', 'up', 'rand', 'step', 'near', 'neg', 'zero', 'mixed', 'inf', 'nan', 'lateinf'])
        fx, x = [], []
        v = rng.choice([1, 10, 100, 0.5, 7])
        pos = [num(rng.uniform(l, l + w)) for l, w in zip(low, width)]
        move = rng.choice([0, 0.01, 0.1, 1])
        for j in range(k):
            if style == 'const':
                f = v
            elif style == 'down':
                f = v - j * rng.choice([0, 0, 0.125, 1])
            elif style == 'up':
                f = v + j
            elif style == 'rand':
                f = rng.uniform(-10, 10)
            elif style == 'step':
                f = v if j < k // 2 else v * 0.875
            elif style == 'near':
                f = v * (1 + rng.choice([0, 0, 1e-3, 0.0625]))
            elif style == 'neg':
                f = -v - rng.choice([0, 0.25])
            elif style == 'zero':
                f = rng.choice([0, 0, 1])
            elif style == 'inf':
                f = INF
            elif style == 'nan':
                f = rng.choice([NAN, v, INF, NAN])
            elif style == 'lateinf':
                f = v if j < k // 2 else rng.choice([INF, -INF if rng.random() < 0.1 else INF, NAN])
            else:
                f = rng.choice([v, INF, NAN, v - 1, 0])
            fx.append(str(num(f)) if math.isfinite(f) else str(f))
            if rng.random() < 0.5:
                pos = [min(l + w, max(l, num(p + rng.uniform(-move, move) * w))) for p, l, w in zip(pos, low, width)]
            x.append(list(pos))
        opts.append({'fx': fx, 'x': x, 'type': rng.randrange(3)})
    if rng.random() < 0.3 and opts[0]['x'] and opts[1]['x']:
        opts[1]['x'][-1] = [p + rng.choice([0, 0, w / 16]) for p, w in zip(opts[0]['x'][-1], width)]
    par = {'calls': rng.choice([1, 2, 3, 4, 5, 8, 10, 20, 39, 40, 41]), 'tol': rng.choice([0, 0, 0.125, 0.25, 0.5, 1e-3, 0.9]),
           'n_iters': rng.choice([1, 1, 2, 3, 5, 10, 20, 40]), 'rel': rng.choice([0.03125, 0.0625, 0.125, 0.25, 0.1, 0.5, 1]),
           'rtol': rng.choice([0.05, 0.125, 0.01, 0.5, 1e-3]), 'min': rng.choice([1, 2, 3, 5, 8, 20, 40, 41]),
           'crit': rng.choice([0.5, 1, 1, 2, 4, 0.25]), 'med': rng.choice([0.5, 0.5, 0.1, 0.9, 0.25, 0.75, 0.01]),
           'kill': rng.randrange(3)}
    return {'opts': opts, 'dim': dim, 'bounds': [[l, l + w] for l, w in zip(low, width)], 'par': par,
            'file': rng.random() < 0.25, 'seed': rng.randrange(10 ** 6), 'order': rng.randrange(10 ** 6),
            'sample': rng.random() < 0.4}


def fill(log, case, file):
    t0 = datetime.datetime(2020, 1, 1)
    r = random.Random(case['order'])
    left = {}
    for o, d in enumerate(case['opts'], 1):
        log.add_optimizer(o, TYPES[d['type']].__name__, t0)
        if d['fx']:
            left[o] = 0
            log.add_iter_history(o, {})
    while left:
        o = r.choice(sorted(left))
        k = left[o]
        d = case['opts'][o - 1]
        log.put_iteration(IterationResult(o, list(d['x'][k]), float(d['fx'][k]), []))
        left[o] += 1
        if left[o] == len(d['fx']):
            del left[o]


def snap(log, n):
    out = [len(log), log.n_optimizers, log.largest_eval, repr(log.get_best_iter())]
    for o in range(1, n + 1):
        out.append((log.len(o), repr(log.get_best_iter(o)), [[float(i) for i in v] for v in log.get_history(o, 'x')],
                    [repr(float(v)) for v in log.get_history(o, 'fx')], log.get_metadata(o, 'opt_type')))
    return repr(out)


def dist2(a, b):
    return sum((Fraction(p) - Fraction(q)) ** 2 for p, q in zip(a, b))


def near(a, b, scale=1e-10):
    return a != b and abs(a - b) <= scale * max(abs(a), abs(b))


def ref_best(fx, calls, tol):
    if len(fx) <= calls:
        return False, 'too_short'
    def best(v):
        v = [f for f in v if not math.isnan(f)]
        return min(v) if v else NAN
    a, b = best(fx[:-calls]), best(fx)
    if math.isnan(a):
        return (False, 'nan') if math.isnan(b) else (None, None)
    if math.isinf(a) or math.isinf(b):
        return None, None
    l, r = abs(Fraction(b) - Fraction(a)), abs(Fraction(a) * Fraction(tol))
    if near(l, r):
        return None, None
    return l <= r, 'nan' if any(map(math.isnan, fx)) else None


def ref_evals(fx, calls, tol):
    if len(fx) < calls:
        return False, 'too_short'
    w = fx[-calls:]
    if not all(map(math.isfinite, w)):
        return False, 'nonfinite'
    fr = [Fraction(f) for f in w]
    mean = sum(fr) / len(fr)
    var = sum((f - mean) ** 2 for f in fr) / len(fr)
    r = (Fraction(fx[-1]) * Fraction(tol)) ** 2
    if var == 0:
        if r > 0:
            return True, None
        # unchanging values with no tolerance: judged where the arithmetic is exact
        return (True, None) if all((f * 8).denominator == 1 and abs(f) < 10 ** 6 for f in fr) else (None, None)
    if abs(var - r) <= Fraction(1, 10 ** 9) * max(var, r):
        return None, None
    return var <= r, None


def ref_dist(case, hunter, victim, rel, test_all):
    diag = sum((Fraction(b) - Fraction(a)) ** 2 for a, b in case['bounds'])
    lim = Fraction(rel) ** 2 * diag
    vx = case['opts'][victim - 1]['x'][-1]
    doubt = False
    for o in (range(1, len(case['opts']) + 1) if test_all else [hunter]):
        if o == victim or not case['opts'][o - 1]['x']:
            continue
        d = dist2(case['opts'][o - 1]['x'][-1], vx)
        if abs(d - lim) <= Fraction(1, 10 ** 9) * lim:
            doubt = True
        elif d < lim:
            return True, None
    return (None, None) if doubt else (False, None)


def ref_step(case, victim, calls, rtol):
    x = case['opts'][victim - 1]['x'][-calls:]
    if len(x) < calls or calls < 2:
        return False, 'too_short'
    steps = [math.sqrt(dist2(a, b)) for a, b in zip(x[1:], x[:-1])]
    mean = math.fsum(steps) / len(steps)
    lim = rtol * math.sqrt(sum((Fraction(b) - Fraction(a)) ** 2 for a, b in case['bounds']))
    if abs(mean - lim) <= 1e-9 * lim:
        return None, None
    return mean < lim, None


def run(case, ctx):
    n = len(case['opts'])
    par = case['par']
    fxs = [[float(f) for f in o['fx']] for o in case['opts']]
    if any(not math.isfinite(f) for fx in fxs for f in fx):
        ctx.count('nonfinite')
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    logs = []
    mem = BaseLogger(build_traj_plot=False)
    fill(mem, case, False)
    logs.append(('memory', mem))
    with contextlib.ExitStack() as st:
        if case['file']:
            d = st.enter_context(sc.scratch())
            for name in ('file', 'cleared'):
                fl = FileLogger(n_parms=case['dim'], expected_rows=100, build_traj_plot=False)
                fl.open(d / f'{name}.h5', 'w', 'abc')
                st.callback(fl.close)
                fill(fl, case, True)
                if name == 'cleared':
                    fl.clear_cache()
                    ctx.count('file_log_cleared')
                else:
                    ctx.count('file_log')
                logs.append((name, fl))
        before = [snap(lg, n) for _, lg in logs]
        r = random.Random(case['seed'])
        victims = [o for o in range(1, n + 1) if fxs[o - 1]]
        pairs = [(h, v) for h in range(1, n + 1) for v in victims if h != v]
        r.shuffle(pairs)
        for h, v in pairs[:3]:
            fx = fxs[v - 1]
            todo = [('BestUnmoving', lambda: BestUnmoving(par['calls'], par['tol']), ref_best(fx, par['calls'], par['tol'])),
                    ('EvaluationsUnmoving', lambda: EvaluationsUnmoving(par['calls'], par['tol']),
                     ref_evals(fx, par['calls'], par['tol'])),
                    ('LastPointsInvalid', lambda: LastPointsInvalid(par['n_iters']),
                     (len(fx) >= par['n_iters'] and not any(map(math.isfinite, fx[-par['n_iters']:])), None)),
                    ('MinFuncCalls', lambda: MinFuncCalls(par['min']), (len(fx) >= par['min'], None)),
                    ('ParameterDistance', lambda: ParameterDistance(case['bounds'], par['rel']),
                     ref_dist(case, h, v, par['rel'], False)),
                    ('ParameterDistance', lambda: ParameterDistance(case['bounds'], par['rel'], True),
                     ref_dist(case, h, v, par['rel'], True)),
                    ('StepSize', lambda: StepSize(case['bounds'], par['calls'], par['rtol']),
                     ref_step(case, v, par['calls'], par['rtol'])),
                    ('TypeHunter', lambda: TypeHunter(TYPES[par['kill']]),
                     (None if (par['kill'], case['opts'][v - 1]['type']) == (0, 1) else
                      par['kill'] == case['opts'][v - 1]['type'], None))]
            for name, mk, (exp, why) in todo:
                got = []
                cond = mk()
                for lname, lg in logs:
                    for _ in range(2):
                        g = cond(lg, h, v)
                        got.append(bool(g))
                        if exp is not None:
                            ctx.expect(bool(g) == exp, f'{name} decides differently from its documentation',
                                       (name, par, lname, h, v, case['opts'][v - 1]['fx'][-45:], 'expected', exp))
                        ctx.expect(cond.last_result is not None and bool(cond.last_result) == bool(g),
                                   f'{name} does not record its result', (g, cond.last_result))
                ctx.expect(len(set(got)) == 1, f'{name} depends on the kind of log or on earlier evaluations', (got, par, h, v))
                if exp is not None:
                    ctx.count(f'{name}:{exp}')
                    if why:
                        ctx.count(why)
                    ctx.sig(name, repr(par), repr(case['opts'][v - 1]['fx'])[:300], exp)
        if case['sample']:
            for h, v in pairs[:2]:
                lname, lg = logs[r.randrange(len(logs))]
                if not fxs[h - 1]:
                    continue
                ratio = len(fxs[h - 1]) / len(fxs[v - 1])
                p = max(0.0, 1 - ratio / par['crit'])
                sample(ctx, 'TimeAnnealing', TimeAnnealing(par['crit']), lg, h, v, p, (ratio, par['crit']))
                fh = min((f for f in fxs[h - 1] if f < INF), default=INF)
                fv = min((f for f in fxs[v - 1] if f < INF), default=INF)
                if fh == -INF:
                    continue
                if fh == 0 or fv <= fh:
                    p = 0.0
                elif fv == INF:
                    p = 1.0
                else:
                    p = 1 - (1 - par['med']) ** abs((fh - fv) / fh)
                sample(ctx, 'ValueAnnealing', ValueAnnealing(par['med']), lg, h, v, p, (fh, fv, par['med']))
        ctx.expect([snap(lg, n) for _, lg in logs] == before, 'evaluating a condition changed the log', '')
    bad = [(MinFuncCalls, (0,)), (MinFuncCalls, (-2,)), (MinFuncCalls, (1.5,)), (TimeAnnealing, (0,)),
           (TimeAnnealing, (-0.5,)), (TimeAnnealing, ('a',)), (ParameterDistance, ([(0, 1)], 0)),
           (ParameterDistance, ([(0, 1)], -1)), (ParameterDistance, ([(1, 0)], 0.1)), (StepSize, ([(0, INF)], 3)),
           (TypeHunter, (int,)), (ValueAnnealing, (0,)), (ValueAnnealing, (1.5,))]
    cls, a = bad[case['seed'] % len(bad)]
    try:
        cls(*a)
        ctx.viol('nonsense parameters accepted', (cls.__name__, a))
    except (ValueError, TypeError, AssertionError):
        ctx.count('refused')
    ctx.note(par=par, lengths=[len(f) for f in fxs])


def sample(ctx, name, cond, lg, h, v, p, info):
    N = 1200
    k = 0
    for _ in range(N):
        g = bool(cond(lg, h, v))
        if g != bool(cond.last_result):
            ctx.viol(f'{name} does not record its result', (g, cond.last_result))
        k += g
    ctx.count(name)
    if 1 - 1e-12 < p < 1:
        p = 1
    if p == 0:
        ctx.count('never')
        ctx.expect(k == 0, f'{name} kills in a never-kill case', (info, k))
    elif p == 1:
        ctx.count('always')
        ctx.expect(k == N, f'{name} spares in an always-kill case', (info, k))
    else:
        ctx.expect(abs(k - N * p) <= 6 * math.sqrt(N * p * (1 - p)) + 1.5, f'{name} does not follow its documented probability',
                   (info, 'expected', p, 'seen', k / N))
