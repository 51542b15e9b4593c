"""Runs the parts of glompo which need scipy under the interpreter which has it; prints what was observed as JSON.

Started by the checks C16 and C19 as a separate process: <python with scipy> gmon/vt.py < case.  That interpreter has no
PyTables, which is not used by these parts: an empty stand-in lets glompo be imported."""
import json
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get('GMON_REPO', '/repo')
sys.path.insert(0, REPO)


class Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return type(n, (object,), {})


try:
    import tables  # noqa
except ImportError:
    sys.modules['tables'] = Stub('tables')
try:
    import numpy as np
    import scipy.optimize  # noqa
except ImportError as e:
    print(json.dumps('unavailable'))
    sys.exit(0)
import glompo.common.helpers  # noqa
import warnings
warnings.simplefilter('ignore')
np.seterr(all='ignore')


def lst(x):
    return [float(i) for i in np.ravel(x)]


def funcs(name, seed):
    r = np.random.RandomState(seed)
    c = r.uniform(-1, 1, 8)

    def f(x):
        x = np.asarray(x, dtype=float)
        if name == 'sphere':
            return float(np.sum((x - c[:len(x)]) ** 2))
        if name == 'rastrigin':
            return float(np.sum(x ** 2 - 10 * np.cos(2 * np.pi * x) + 10))
        if name == 'corner':
            return float(np.sum(x))
        if name == 'holes':
            return float('nan') if np.sin(7 * np.sum(x)) > 0.5 else float(np.sum(x ** 2))
        return float(np.sum(np.abs(x - c[:len(x)])))

    return f


def generators(case):
    calls = []
    f = funcs(case['fn'], case['seed'])

    def task(x):
        calls.append(lst(x))
        return f(x)

    class Log:
        _f_counter = 0

        def __init__(self):
            self.best = {'opt_id': 0, 'x': [], 'fx': float('inf'), 'type': '', 'call_id': 0}

        def get_best_iter(self):
            return dict(self.best)

        def __len__(self):
            return self._f_counter

    class Man:
        f_counter = 0

    m = Man()
    m.opt_log = Log()
    np.random.seed(case['seed'])
    b = [tuple(x) for x in case['bounds']]
    given = {'list': [list(x) for x in b], 'tuple': tuple(b), 'array': np.array(b, dtype=float)}[case['bform']]
    before = repr(given)
    temps = []
    if case['kind'] == 'annealing':
        from glompo.generators.annealing import AnnealingGenerator
        g = AnnealingGenerator(given, task, seed=case['seed'], initial_temp=case['temp'], restart_temp_ratio=case['ratio'])
        inner = getattr(getattr(g, 'chain', None), 'run', None)
        if inner is not None:
            def run(step, temperature):
                temps.append(float(temperature))
                return inner(step, temperature)
            g.chain.run = run
    else:
        from glompo.generators.peterbation import PerturbationGenerator
        g = PerturbationGenerator(case['x0'], given, case['scale'])
    out = []
    kept = []
    for k in range(case['n']):
        if str(k) in case['bests']:
            x, fx = case['bests'][str(k)]
            m.opt_log.best.update(x=np.array(x) if k % 2 else list(x), fx=fx, opt_id=1)
        shown = lst(m.opt_log.best['x'])
        n0, f0, t0 = len(calls), m.f_counter, len(temps)
        y = g.generate(m)
        kept.append((y, lst(y)))
        out.append({'y': lst(y), 'shape': list(np.shape(y)), 'calls': calls[n0:], 'counted': m.f_counter - f0,
                    'log': m.opt_log._f_counter, 'total': m.f_counter, 'reset': k > 0 and any(np.isclose(t, case['temp']) for t in temps[t0:]),
                    'same_best': shown == lst(m.opt_log.best['x'])})
        if case['spoil']:
            kept.pop()
            y[...] = 1e9
    return {'points': out, 'kept': all(lst(a) == c for a, c in kept), 'init': calls[:len(calls) - sum(len(o['calls']) for o in out)],
            'given': before == repr(given), 'temps': temps}


def direct(case, f):
    """ What SciPy itself delivers for the same request. """
    from scipy import optimize as so
    kw = dict(case['kwargs'])
    m = case['method']
    b = [tuple(x) for x in case['bounds']]
    if m == 'basinhopping':
        r = so.basinhopping(f, x0=case['x0'], **kw).lowest_optimization_result
    elif m == 'shgo':
        r = so.shgo(f, bounds=b, **kw)
    elif m in ('dual_annealing', 'differential_evolution'):
        r = getattr(so, m)(f, bounds=b, x0=case['x0'], **kw)
    else:
        r = so.minimize(f, case['x0'], method=m, bounds=b, **kw)
    return {'x': lst(r.x), 'fx': float(np.ravel(r.fun)[0]), 'success': bool(r.success)}


def optimizer(case):
    import queue
    import threading
    from glompo.optimizers.scipy import ScipyOptimizeWrapper
    calls = []
    seen = []
    f = funcs(case['fn'], case['seed'])

    def task(x):
        v = f(x)
        calls.append((lst(x), v))
        return v

    np.random.seed(case['seed'])
    kw = dict(case['kwargs'])
    res = {}
    cbs = [lambda *a, **k: seen.append(1)] if case['callback'] else None
    if case['managed']:
        q = queue.Queue()
        sent = []

        class Pipe:
            def send(self, o):
                sent.append(o if not isinstance(o, tuple) else [o[0], str(o[1])])

            def poll(self, *a):
                return False

        ev = threading.Event()
        ev.set()
        o = ScipyOptimizeWrapper(_opt_id=3, _signal_pipe=Pipe(), _results_queue=q, _pause_flag=ev, method=case['method'])
        r = o._minimize(task, case['x0'], np.array(case['bounds']), callbacks=cbs, **kw)
        items = []
        while not q.empty():
            it = q.get_nowait()
            items.append(it if isinstance(it, int) else [it.opt_id, lst(it.x), float(it.fx)])
        res.update(sent=sent, items=items)
    else:
        o = ScipyOptimizeWrapper(method=case['method'])
        r = o.minimize(task, case['x0'], [tuple(x) for x in case['bounds']], callbacks=cbs, **kw)
    res.update(x=lst(r.x), fx=float(np.ravel(r.fx)[0]), success=r.success, calls=[[x, v] for x, v in calls], seen=len(seen),
               f=f(r.x), own=direct(case, f))
    return res


def one(case):
    try:
        return optimizer(case) if case['kind'] == 'scipy' else generators(case)
    except Exception as e:  # noqa
        import traceback
        return {'exc': type(e).__name__, 'tb': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-2500:]}


print(json.dumps([one(c) for c in json.load(sys.stdin)]))
