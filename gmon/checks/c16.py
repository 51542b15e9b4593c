"""Start point generators: every point they hand out, against the bounds, the documented strategy and the state they saw."""
import copy
import math
import random
import shutil
import types

import numpy as np

from gmon import oracle, scenario as sc, simchecks, vtrun
from gmon import world as wmod
from gmon.checks import c13
from glompo.common.namedtuples import Result
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.generators import BaseGenerator, ExploitExploreGenerator, IncumbentGenerator, RandomGenerator, SinglePointGenerator
from glompo.generators.basinhopping import BasinHoppingGenerator

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: every point handed out by the generators, over growing real logs and inside simulated '
             'optimizations, is checked against bounds, documented strategy and the state at that time; state and earlier '
             'points are compared before and after, and returned points are overwritten to expose sharing')
LEVEL_NOTE = ('Distributions are judged by frequencies (6 sigma). The selection of ExploitExplore is judged to favour better '
              'optimizers; the Metropolis rule of BasinHopping is judged exactly. The annealing and perturbation generators need '
              'SciPy and run in another interpreter, which has it (not inside whole optimizations).')
RULE = ('Each of seven generators (the two which need SciPy over (a) with a stand-in log) over (a) an in-memory or file log which grows by generated histories (no results yet, '
        'only NaN/inf, ties, huge values), asked repeatedly, (b) fixed states asked some hundred times for the distribution, '
        '(c) simulated optimizations. Non-trivial: a point judged; distinct: generator, state and case.')
ASSUMPTIONS = ['The optimizers evaluated points inside the bounds only; a user-given single point lies inside the bounds.',
               'Finite results stay below 1e300 in size for the step acceptance of the basin-hopping generator.']
CASES = {'quick': 1500, 'thorough': 30000}
BATCH = 60                             # every so many cases one batch for the generators which need SciPy
KINDS = ['random', 'single', 'incumbent', 'exploit', 'basin']
REQUIRED = [f'{k}:points' for k in KINDS] + ['empty_log', 'all_nonfinite', 'some_nonfinite', 'incumbent', 'no_incumbent',
                                             'blend', 'at_incumbent', 'basin_step', 'basin_clipped', 'file_log', 'uniform',
                                             'metropolis', 'roulette', 'step_shrunk', 'step_grown', 'sessions', 'run_points',
                                             'refused']
if shutil.which('python3-vt'):
    REQUIRED += ['annealing:points', 'perturbation:points', 'annealing_best', 'temperature_reset', 'temperature_decreased', 'annealing_counted', 'truncated_normal', 'spoiled']
HANG = 240


def gen(i, rng, tier):
    kind = KINDS[i % 5]
    if i % BATCH == BATCH // 2:
        return {'kind': 'scipy', 'batch': [scipy_case(rng) for _ in range(10)]}
    d = {'kind': kind, 'seed': rng.randrange(10 ** 6), 'mode': rng.choice(['grow'] * 6 + ['stat', 'run', 'run']),
         'max_f': rng.choice([2, 10, 40, 100]), 'focus': rng.choice([0.2, 0.5, 1, 1, 2, 5]),
         'temp': rng.choice([0, 0.5, 1, 10, 1e300]), 'step': rng.choice([0.01, 0.5, 0.5, 3, 1000]),
         'rate': rng.choice([0.05, 0.3, 0.5, 0.9]), 'interval': rng.choice([1, 2, 5]), 'factor': rng.choice([0.5, 0.9]),
         'given': rng.choice([None, None, 'list', 'array', 'tuple']), 'bform': rng.choice(['list', 'array', 'tuple'])}
    if d['mode'] == 'run':
        c = sc.base_cfg(rng)
        c['max_opts'] = rng.choice([4, 8, 14])
        c['rounds'] = None
        d['run'] = c
    else:
        h = c13.gen(i, rng, tier)
        for o in h['opts']:
            o['x'] = [[min(max(v, lo), hi) for v, (lo, hi) in zip(x, h['bounds'])] for x in o['x']]
        if rng.random() < 0.15:
            for o in h['opts']:
                o['fx'] = [rng.choice(['nan', 'inf']) for _ in o['fx']]
        elif rng.random() < 0.15:
            for o in h['opts']:
                o['fx'] = [rng.choice(['1.7976931348623157e308', '-1e308', '3', '1e300', 'inf', '-inf']) for _ in o['fx']]
            d['temp'] = 0
        d['hist'] = h
    return d


def scipy_case(rng):
    nd = rng.randint(1, 4)
    bounds = []
    for _ in range(nd):
        lo = rng.choice([-5, 0, 3.5, -1e5, -0.01])
        bounds.append([lo, lo + rng.choice([1e-2, 1, 20, 1e6])])
    inside = lambda: [rng.choice([lo + rng.random() * (hi - lo)] * 4 + [lo, hi]) for lo, hi in bounds]  # noqa
    n = rng.choice([5, 30, 80])
    return {'kind': rng.choice(['annealing', 'perturbation']), 'seed': rng.randrange(10 ** 6), 'bounds': bounds, 'n': n,
            'bform': rng.choice(['list', 'array', 'tuple']), 'fn': rng.choice(['sphere', 'rastrigin', 'corner', 'holes', 'abs']),
            'temp': rng.choice([5230, 10, 1e6]), 'ratio': rng.choice([2e-5, 0.01, 0.1]), 'x0': [float(v) for v in inside()], 'spoil': rng.random() < 0.5, 'again': rng.random() < 0.5,
            'scale': [(hi - lo) * rng.choice([0.01, 0.3, 1, 30]) for lo, hi in bounds],
            'bests': {str(k): [inside(), rng.choice([1e12, -1e12, -1e13, -math.inf, math.nan, 0.1])]
                      for k in rng.sample(range(n), rng.choice([0, 1, 4]))}}


def cdf(z):
    return 0.5 * (1 + math.erf(z / math.sqrt(2)))


def scipy_batch(case, ctx):
    """ The generators built on SciPy. """
    todo = case['batch'] + [c for c in case['batch'] if c['again'] and not c['spoil']]
    out = vtrun.run(todo)
    if out is None:
        ctx.count('scipy_unavailable')
        return
    if not ctx.expect(isinstance(out, list), 'scipy generators: hang or crash', out):
        return
    again = iter(out[len(case['batch']):])
    for c, o in zip(case['batch'], out):
        k = c['kind']
        if not ctx.expect('exc' not in o, f'{k} generator: exception', (c, o.get('tb'))):
            continue
        ctx.expect(o['given'], 'the bounds given by the user changed', c)
        ctx.expect(o['kept'], 'a previously returned point changed', c)
        b = c['bounds']
        ctx.count('spoiled', c['spoil'])
        inb = lambda x: all(lo - 1e-12 * (abs(lo) + abs(hi)) <= v <= hi + 1e-12 * (abs(lo) + abs(hi)) for v, (lo, hi) in zip(x, b))  # noqa
        T, T0 = o['temps'], c['temp']
        ctx.expect(not T or math.isclose(T[0], T0), 'annealing generator: does not start at the initial temperature', (T[:3], c))
        for u, v in zip(T, T[1:]):
            ctx.expect(T0 * c['ratio'] <= v <= u or math.isclose(v, T0), 'annealing generator: temperature neither decreased nor reset', (u, v, c))
            ctx.count('temperature_reset', v > u)
            ctx.count('temperature_decreased', v < u)
        if len(T) >= 30 and c['ratio'] >= 0.01:
            ctx.expect(min(T) < T0 / 2, 'annealing generator: temperature not decreased', (T[:40], c))
        known = [list(x) for x in o['init']]
        last, total = None, 0
        lowest = math.inf
        for n, p in enumerate(o['points']):
            y = p['y']
            ctx.count(k + ':points')
            ctx.expect(p['shape'] == [len(b)], f'{k} generator: wrong shape', (p['shape'], c))
            ctx.expect(all(map(math.isfinite, y)), f'{k} generator: entry not finite', (y, c))
            ctx.expect(inb(y), f'{k} generator: outside the bounds', (n, y, c))
            ctx.expect(p['same_best'], 'generating a point changed the state of the optimization', (n, c))
            ctx.expect(p['log'] == p['total'], f'{k} generator: evaluation counts of log and manager differ', (p['log'], p['total']))
            known += p['calls']
            if str(n) in c['bests']:
                x, fx = c['bests'][str(n)]
                known.append(x)
                if fx < -1e11 and fx < lowest:       # nothing the task can deliver competes with that
                    lowest = fx
                    if not p['reset'] and (last is None or any(abs(u - v) > 1e-4 * (hi - lo) for u, v, (lo, hi) in zip(x, last, b))):
                        ctx.expect(k != 'annealing' or eq(y, x), 'annealing generator: best point of the optimizers ignored', (n, x, y, c))
                        ctx.count('annealing_best', k == 'annealing')
            if k == 'annealing':
                ctx.expect(any(eq(y, x) for x in known), 'annealing generator: point neither evaluated nor the best known', (n, y, c))
                ctx.expect(all(map(inb, p['calls'])), 'annealing generator: evaluation outside the bounds', (n, c))
                ctx.expect(p['counted'] <= len(p['calls']) <= 2 * p['counted'] + 1000 * (c['fn'] == 'holes') and p['counted'],
                           'annealing generator: evaluations not counted', (p['counted'], len(p['calls']), c))
                ctx.count('annealing_counted', p['counted'])
                ctx.expect(last is None or not all(abs(u - v) <= 1e-7 * (hi - lo) for u, v, (lo, hi) in zip(y, last, b)), 'annealing generator: same point again', (n, y, last, c))
            last = y
        if c['again'] and not c['spoil']:
            o2 = next(again)
            ctx.expect(o2.get('points') == o['points'] or any(math.isnan(v[1]) for v in c['bests'].values()), f'{k} generator: not reproducible with a seed', c)
        if k == 'perturbation' and len(o['points']) >= 30:
            for q, (lo, hi) in enumerate(b):
                m, s = c['x0'][q], c['scale'][q]
                a, z = cdf((lo - m) / s), cdf((hi - m) / s)
                N = len(o['points'])
                for t in (0.25, 0.5, 0.75):
                    cut = lo + t * (hi - lo)
                    pr = min(1.0, max(0.0, (cdf((cut - m) / s) - a) / (z - a)))
                    sigma(ctx, N, pr, sum(p['y'][q] <= cut for p in o['points']), 'perturbation generator: not the documented distribution', c, q, t)
            ctx.count('truncated_normal')
        ctx.sig(k, repr(c))
    ctx.note(kind='scipy', mode='batch')


def make(kind, case, bounds):
    if kind == 'random':
        return RandomGenerator(bounds)
    if kind == 'single':
        if case['given'] is None:
            return SinglePointGenerator(bounds)
        r = random.Random(case['seed'])
        x = [float(min(max(a + (b - a) * r.random(), a), b)) for a, b in bounds]
        return SinglePointGenerator(bounds, {'list': list, 'array': np.array, 'tuple': tuple}[case['given']](x))
    if kind == 'incumbent':
        return IncumbentGenerator(bounds)
    if kind == 'exploit':
        return ExploitExploreGenerator(bounds, case['max_f'], case['focus'])
    return BasinHoppingGenerator(case['temp'], case['step'], case['rate'], case['interval'], case['factor'])


def state(man, bounds):
    """ What the generators may base their point on, as plain data. """
    log = man.opt_log
    rx = man.result.x
    return {'bounds': [tuple(map(float, b)) for b in bounds], 'rx': None if rx is None or len(rx) == 0 else [float(i) for i in rx],
            'rfx': man.result.fx, 'f': man.f_counter, 'o': man.o_counter,
            'bests': {o: ([float(i) for i in log.get_best_iter(o)['x']], float(log.get_best_iter(o)['fx']))
                      for o in range(1, log.n_optimizers + 1)},
            'best': repr(log.get_best_iter()), 'n': len(log), 'len': [log.len(o) for o in range(1, log.n_optimizers + 1)]}


def eq(a, b):
    return all(p == q for p, q in zip(a, b)) and len(a) == len(b)


class Judge:
    """ Judges the points of one generator. """

    def __init__(self, kind, case, gen, ctx):
        self.kind, self.case, self.gen, self.ctx = kind, case, gen, ctx
        self.first = None
        self.returned = []
        self.points = 0
        self.step = case['step']

    def __call__(self, y, s):
        kind, ctx, case = self.kind, self.ctx, self.case
        self.points += 1
        ctx.count(kind + ':points')
        b = s['bounds']
        if not ctx.expect(np.ndim(y) == 1 and len(y) == len(b), f'{kind} generator: wrong shape', (y, b)):
            return
        y = [float(i) for i in y]
        ctx.expect(all(map(math.isfinite, y)), f'{kind} generator: entry not finite', (y, s))
        tol = [1e-12 * (abs(lo) + abs(hi)) if kind == 'exploit' else math.ulp(abs(lo) + abs(hi)) for lo, hi in b]
        ctx.expect(all(lo - t <= v <= hi + t for v, (lo, hi), t in zip(y, b, tol)), f'{kind} generator: outside the bounds', (y, s))
        if kind == 'single':
            if self.first is None:
                self.first = y
                if case['given']:
                    r = random.Random(case['seed'])
                    x = [float(min(max(lo + (hi - lo) * r.random(), lo), hi)) for lo, hi in b]
                    ctx.expect(eq(y, x), 'single point generator: not the given point', (y, x))
            ctx.expect(eq(y, self.first), 'single point generator: point changed', (y, self.first))
        elif kind == 'incumbent':
            if s['rx'] is not None:
                ctx.count('incumbent')
                ctx.expect(eq(y, s['rx']), 'incumbent generator: not the incumbent', (y, s['rx']))
            else:
                ctx.count('no_incumbent')
        elif kind == 'exploit':
            p = min(1.0, max(0.0, s['f'] / case['max_f'])) ** case['focus']
            fin = [x for x, fx in s['bests'].values() if math.isfinite(fx)]
            if p == 1 and len({fx for _, fx in s['bests'].values() if math.isfinite(fx)}) > 1:
                ctx.count('at_incumbent')
                ctx.expect(any(all(abs(u - v) <= 1e-9 * (abs(v) + 1e-9) for u, v in zip(y, x)) for x in fin),
                           'exploit/explore generator: not at an evaluated point at the end', (y, s))
            elif p < 1 and fin:
                def blend(x):
                    return all((1 - p) * lo - t <= v - p * u <= (1 - p) * hi + t for v, u, (lo, hi), t in zip(y, x, b, tol))
                box = all(lo - t <= v <= hi + t for v, (lo, hi), t in zip(y, b, tol))
                single = len({fx for _, fx in s['bests'].values() if math.isfinite(fx)}) == 1
                ctx.count('blend')
                ctx.expect(any(blend(x) for x in fin) or single and box, 'exploit/explore generator: not on the documented blend', (y, p, s))
        elif kind == 'basin':
            best = min((fx for _, fx in s['bests'].values()), default=math.inf)
            if best < math.inf:
                cand = [x for x, fx in s['bests'].values() if fx < math.inf]
                lim = case['step']

                def close(x):
                    return all(abs(v - min(max(u, lo), hi)) <= lim + t + 1e-12 * (lim + abs(u)) for v, u, (lo, hi), t in zip(y, x, b, tol))
                ctx.expect(any(close(x) for x in cand), 'basin-hopping generator: step larger than allowed', (y, lim, s))
                ctx.count('basin_step')
                if any(v in (lo, hi) for v, (lo, hi) in zip(y, b)):
                    ctx.count('basin_clipped')
                st = self.gen.step_size
                if st != self.step:
                    up, down = min(self.step / case['factor'], case['step']), self.step * case['factor']
                    ctx.expect(s['o'] % case['interval'] == 0 and any(math.isclose(st, v) for v in (up, down)),
                               'basin-hopping generator: undocumented change of the step size', (self.step, st, s['o']))
                    ctx.count('step_grown' if st > self.step else 'step_shrunk')
                    self.step = st
                ctx.expect(0 < st <= case['step'], 'basin-hopping generator: step size beyond its maximum', st)
        if not s['bests']:
            ctx.count('empty_log')
        elif s['n'] and not any(math.isfinite(fx) for _, fx in s['bests'].values()):
            ctx.count('all_nonfinite')
        elif any(not math.isfinite(fx) for _, fx in s['bests'].values()):
            ctx.count('some_nonfinite')


def ask(judge, man, bounds):
    """ One call with before/after comparison; the point is kept, and overwritten once it was judged. """
    g, ctx = judge.gen, judge.ctx
    before = state(man, bounds)
    held = [(r, c) for r, c in judge.returned]
    y = g.generate(man)
    for r, c in held:
        ctx.expect(eq([float(i) for i in r], c), 'a previously returned point changed', (c, r))
    judge(y, before)
    after = state(man, bounds)
    ctx.expect(repr(after) == repr(before), 'generating a point changed the state of the optimization', (before, after))
    judge.returned = (judge.returned + [(y, [float(i) for i in y])])[-3:]
    return y


def spoil(judge, man, bounds, r):
    """ An optimizer may work on the point it was given. """
    if judge.returned and isinstance(judge.returned[0][0], (np.ndarray, list)) and r.random() < 0.5:
        before = state(man, bounds)
        y, _ = judge.returned.pop(0)
        for k in range(len(y)):
            y[k] = -12345.678
        judge.ctx.expect(repr(state(man, bounds)) == repr(before), 'a returned point shares memory with the state', before)


class Man(types.SimpleNamespace):
    def update(self):
        b = self.opt_log.get_best_iter()
        if math.isfinite(b['fx']) or b['fx'] == -math.inf:
            self.result = Result(b['x'], b['fx'], {}, {'opt_id': b['opt_id'], 'type': b['type']})


def grow(case, ctx, scratch):
    h = case['hist']
    bounds = [tuple(b) for b in h['bounds']]
    given = {'list': [list(b) for b in bounds], 'tuple': tuple(bounds), 'array': np.array(bounds, dtype=float)}[case['bform']]
    kept = copy.deepcopy(given)
    log = FileLogger(h['dim'], 100, False) if h['file'] else BaseLogger(False)
    if h['file']:
        ctx.count('file_log')
        log.open(scratch / 'log.h5', 'w', 'c')
    man = Man(opt_log=log, bounds=bounds, n_parms=h['dim'], o_counter=0, f_counter=0, result=Result([], math.inf, {}, {}))
    g = make(case['kind'], case, given)
    j = Judge(case['kind'], case, g, ctx)
    r = random.Random(h['order'])
    ask(j, man, bounds)
    left = {}
    pend = list(enumerate(h['opts'], 1))
    import datetime
    t0 = datetime.datetime(2020, 1, 1)
    while left or pend:
        if pend and (not left or r.random() < 0.2):
            o, d = pend.pop(0)
            log.add_optimizer(o, c13.TYPES[d['type']].__name__, t0)
            man.o_counter = o
            if d['fx']:
                left[o] = 0
        else:
            o = r.choice(sorted(left))
            d = h['opts'][o - 1]
            k = left[o]
            if k == 0:
                log.add_iter_history(o, {})
            mk = (lambda v: np.array(v, dtype=float)) if h['order'] % 2 else list
            log.put_iteration(c13.IterationResult(o, mk(d['x'][k]), float(d['fx'][k]), []))
            man.f_counter += 1
            man.update()
            left[o] += 1
            if left[o] == len(d['fx']):
                del left[o]
                if r.random() < 0.2:
                    log.clear_cache(o)
        if r.random() < 0.3:
            ask(j, man, bounds)
            spoil(j, man, bounds, r)
    for _ in range(5):
        ask(j, man, bounds)
        spoil(j, man, bounds, r)
    ctx.expect(repr(given) == repr(kept), 'the bounds given by the user changed', (kept, given))
    ctx.sig(case['kind'], repr(h['opts']), case['seed'])
    if h['file']:
        log.close()


def sigma(ctx, n, p, seen, mech, *what):
    ctx.expect(abs(seen - n * p) <= 6 * math.sqrt(n * p * (1 - p)) + 1e-9, mech, (n, p, seen) + what)


def stat(case, ctx):
    """ Distributions in a fixed state. """
    r = random.Random(case['seed'])
    kind = case['kind']
    dim = r.choice([1, 2, 4])
    bounds = [(lo, lo + w) for lo, w in ((r.choice([-5, 0, 3.5, -1e6]), r.choice([1e-3, 1, 20])) for _ in range(dim))]
    log = BaseLogger(False)
    man = Man(opt_log=log, bounds=bounds, n_parms=dim, o_counter=0, f_counter=0, result=Result([], math.inf, {}, {}))
    import datetime
    N = 400
    uniform = kind in ('random', 'single', 'incumbent') or r.random() < 0.4
    n = 0 if uniform else r.choice([2, 3, 4])
    corner = []
    if kind == 'exploit' and uniform:           # two optimizers at the same point: the random part can be isolated
        n = 2
    fxs = []
    for o in range(1, n + 1):
        log.add_optimizer(o, 'A', datetime.datetime(2020, 1, 1))
        log.add_iter_history(o, {})
        # all optimizers at distinguishable places
        x = [lo + (hi - lo) * ((o - 0.5) / n if not uniform else 0.25) for lo, hi in bounds]
        fx = r.choice([0.0, 0.5, 1.0, 2.0]) + o * 1e-6
        fxs.append(fx)
        corner.append(x)
        log.put_iteration(c13.IterationResult(o, x, fx, []))
        man.o_counter, man.f_counter = o, o
        man.update()
    if uniform:
        p = 0.0
        if kind == 'exploit':
            man.f_counter = case['max_f'] * r.choice([0, 0.25, 0.5])
            p = (man.f_counter / case['max_f']) ** case['focus']
        pts = []
        g = make(kind, case, bounds) if kind != 'single' else None
        for _ in range(N):
            if kind == 'single':
                g = SinglePointGenerator(bounds)
            y = np.array(g.generate(man), dtype=float)
            if kind == 'exploit':
                y = (y - p * np.array(corner[0])) / (1 - p)
            pts.append(y)
        ctx.count(kind + ':points', N)
        for k, (lo, hi) in enumerate(bounds):
            u = [(y[k] - lo) / (hi - lo) for y in pts]
            for q in range(4):
                sigma(ctx, N, 0.25, sum(q / 4 <= v < (q + 1) / 4 for v in u), f'{kind} generator: random points not uniform', k, q)
            if k:
                v = [(y[0] - bounds[0][0]) / (bounds[0][1] - bounds[0][0]) for y in pts]
                sigma(ctx, N, 0.25, sum(a < .5 and c < .5 for a, c in zip(u, v)), f'{kind} generator: coordinates not independent', k)
        ctx.count('uniform')
        ctx.sig('uniform', kind, case['seed'])
        return
    if kind == 'exploit':
        man.f_counter = case['max_f'] + r.choice([0, 5])
        g = make(kind, case, bounds)
        seen = [0] * n
        for _ in range(N):
            y = g.generate(man)
            seen[min(range(n), key=lambda q: abs(y[0] - corner[q][0]))] += 1
        order = sorted(range(n), key=lambda q: fxs[q])
        for a, c in zip(order, order[1:]):
            ctx.expect(seen[a] - seen[c] >= -6 * math.sqrt(N / 2), 'exploit/explore generator: favours worse optimizers', (seen, fxs))
        ctx.expect(seen[order[0]] >= N / n - 6 * math.sqrt(N / n), 'exploit/explore generator: best optimizer not favoured', (seen, fxs))
        ctx.count('exploit:points', N)
        ctx.count('roulette')
    else:
        # small steps around the bests; how often is the location moved to which other optimizer?
        c = dict(case, step=1e-9 * (bounds[0][1] - bounds[0][0]), temp=r.choice([0, 0.5, 1, 4]), interval=10 ** 6)
        g = make(kind, c, bounds)
        seen = [0] * n
        for _ in range(N):
            y = g.generate(man)
            seen[min(range(n), key=lambda q: abs(y[0] - corner[q][0]))] += 1
        b = min(range(n), key=lambda q: fxs[q])
        for q in range(n):
            if q != b:
                w = 0 if c['temp'] == 0 else math.exp(-(fxs[q] - fxs[b]) / c['temp'])
                sigma(ctx, N, w / (n - 1), seen[q], 'basin-hopping generator: not the Metropolis chance of moving', c['temp'], fxs, seen)
        ctx.count('basin:points', N)
        ctx.count('metropolis')
        # step adaptation: nothing ever improves / everything is accepted
        T, up = r.choice([(0, False), (1e300, True)])
        c = dict(case, step=0.5, temp=T, interval=2, rate=0.3 if up else 0.5)
        g = make(kind, c, bounds)
        man.o_counter = 3
        j = Judge(kind, c, g, ctx)
        g.generate(man)
        j.step = g.step_size
        sizes = []
        for k in range(60):
            man.o_counter += 1
            ask(j, man, bounds)
            sizes.append(g.step_size)
        if up:
            ctx.expect(sizes[-1] == 0.5, 'basin-hopping generator: step not increased although everything is accepted', sizes)
        else:
            ctx.expect(math.isclose(sizes[-1], 0.5 * c['factor'] ** 30, rel_tol=1e-6), 'basin-hopping generator: step not decreased although nothing improves', sizes)
        g2 = make(kind, dict(c, temp=1e300, rate=0.3), bounds)
        g2.step_size = 0.5 * c['factor'] ** 4
        j2 = Judge(kind, dict(c, temp=1e300, rate=0.3), g2, ctx)
        j2.step = g2.step_size
        for k in range(60):
            man.o_counter += 1
            ask(j2, man, bounds)
    ctx.sig('stat', kind, case['seed'])


class Watch(BaseGenerator):
    """ A built-in generator under observation inside a simulated optimization. """

    def __init__(self, judge):
        super().__init__()
        self.judge = judge

    def generate(self, manager):
        w = wmod.WORLD
        frozen, w.sim.frozen = w.sim.frozen, True
        try:
            y = ask(self.judge, manager, manager.bounds)
            self.judge.ctx.count('run_points')
            w.log('gen', x=np.array(y, copy=True, dtype=float))
        finally:
            w.sim.frozen = frozen
        return y


def session(case, ctx):
    c = case['run']
    np.random.seed(case['seed'])
    bounds = [(-1e303, 1e303)] * wmod.NDIM
    j = Judge(case['kind'], case, make(case['kind'], case, bounds), ctx)

    def judge(v, cx):
        begins = [e for e in v.W.of('opt_begin')]
        gens = v.W.of('gen')
        for e in begins:
            cx.expect(e['opt'] <= len(gens) and eq(list(e['x0']), list(gens[e['opt'] - 1]['x'])),
                      'optimizer does not start at the generated point', (e['opt'], e['x0'], [g['x'] for g in gens]))
        oracle.c02(v, cx)
    simchecks.run(c, ctx, judge, generator=Watch(j))


def run(case, ctx):
    if case['kind'] == 'scipy':
        return scipy_batch(case, ctx)
    np.random.seed(case['seed'])
    if case['mode'] == 'run':
        session(case, ctx)
    elif case['mode'] == 'stat':
        stat(case, ctx)
    else:
        with sc.scratch() as d:
            grow(case, ctx, d)
    for b in ([(0, 1), (2, 2)], [(1, 0)], [(0, math.inf)], [(math.nan, 1)]):
        if case['kind'] != 'basin':
            try:
                make(case['kind'], dict(case, given=None), b)
                ctx.viol(f'{case["kind"]} generator: accepts invalid bounds', b)
            except ValueError:
                ctx.count('refused')
    ctx.note(kind=case['kind'], mode=case['mode'])
