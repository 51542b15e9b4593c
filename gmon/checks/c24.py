"""Benchmark functions: every evaluation of random, hostile and descending points is judged against what is declared."""
import math
import time
import warnings

import numpy as np

from glompo import benchmark_fncs as B

from gmon import formulas

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: a monitor around every evaluation (finite, repeatable, argument untouched, the documented formula, '
             'not below the declared minimum) under random and hostile points of the domain and descents which try to get below the declared minimum')
LEVEL_NOTE = 'Points sampled from VERIF_SEED; descents aim at the declared minimum from below.'
RULE = ('Every bundled function x dimensions 1..12 (as supported) x its own parameters; points: uniform, corners, faces, declared '
        'minimiser and its neighbours down to one ulp, integers, random descents; lists, tuples and arrays. Non-trivial: at least '
        '50 points; distinct: function, dimensions and parameters.')
ASSUMPTIONS = ['Declared minima carry the digits they are given with (relative tolerance 5e-6; 2e-4 where announced as approximate).',
               'Values announced as unknown or estimates by a warning or the documentation (Lennard-Jones, Michalewicz outside '
               'd = 2, 5, 10, noisy training sets) are not minima to be held to.',
               'Lennard-Jones energies of nearly coinciding atoms may be infinite as documented.']
CASES = {'quick': 400, 'thorough': 6000}
HANG = 120
NAMES = [n for n in B.__all__ if n != 'BaseTestCase']
REQUIRED = ['evaluations', 'descents', 'min_x', 'delays', 'ints', 'searched', 'shifted', 'noisy', 'formula', 'gradients', 'bounds'] + ['f_' + n for n in NAMES]

WIDE = {'Shekel': 2e-3}


def gen(i, rng, tier):
    n = NAMES[i % len(NAMES)]
    c = {'f': n, 'd': rng.choice([1, 2, 2, 3, 4, 5, 8, 10, 12]), 'kw': {}, 'seed': rng.randrange(2 ** 31), 'pts': rng.choice([60, 120]),
         'down': 3 if tier == 'quick' else 6, 'delay': rng.random() < 0.15}
    kw = c['kw']
    if n == 'Ackley':
        kw.update(rng.choice([{}, {'a': 5, 'b': 0.5, 'c': 3.0}, {'a': 1.0, 'b': 2.0}]))
    elif n == 'Deceptive':
        kw.update(b=rng.choice([2, 2, 1, 0.5, 1.5, 3]), shift_positive=rng.random() < 0.5)
    elif n in ('Easom', 'Langermann', 'Schwefel'):
        kw.update(shift_positive=rng.random() < 0.5)
        if n != 'Schwefel':
            c['d'] = 2
    elif n == 'ExpLeastSquaresCost':
        kw.update(n_train=rng.choice([1, 10, 25]), sigma_eval=rng.choice([0, 0, 0.1, 0.5]), sigma_fixed=rng.choice([0, 0, 0, 0.1]),
                  u_train=rng.choice([10, 3, [1.0, 4.0], [0.5, 1.0, 2.0], [0.1] * 7]), p_range=rng.choice([[-2, 2], [0, 1], [-1, 0.5]]))
    elif n == 'LennardJones':
        kw.update(atoms=rng.choice([1, 2, 3, 4, 7, 13]), dims=rng.choice([1, 2, 3, 3, 3]), eps=rng.choice([1, 1, 2.5]),
                  sigma=rng.choice([1, 1, 0.5]))
        c['d'] = kw['atoms'] * kw['dims']
    elif n == 'Michalewicz':
        kw.update(m=rng.choice([10, 10, 10, 1, 2.5, 0.7]))
    elif n == 'Shekel':
        c['d'] = rng.randint(1, 4)
        kw.update(m=rng.choice([5, 7, 10]), shift_positive=rng.random() < 0.5)
    elif n == 'Shubert':
        kw.update(style=rng.choice([1, 3, 4]), shift_positive=rng.random() < 0.5)
        c['d'] = rng.choice([1, 2, 2, 2, 3, 5])
    elif n == 'Rana' and rng.random() < 0.5:
        c['d'] = 2
    return c


def build(c, **extra):
    kw = dict(c['kw'])
    if 'p_range' in kw:
        kw['p_range'] = tuple(kw['p_range'])
    if isinstance(kw.get('u_train'), list) and len(kw['u_train']) == 2:
        kw['u_train'] = tuple(kw['u_train'])
    kw.update(extra)
    C = getattr(B, c['f'])
    if c['f'] == 'LennardJones':
        return C(**kw)
    if c['f'] in ('Easom', 'Langermann'):
        return C(**kw)
    return C(c['d'], **kw)


def run(case, ctx):
    name, kw = case['f'], case['kw']
    np.random.seed(case['seed'])
    rng = np.random.RandomState(case['seed'] ^ 0x5bd1e995)
    f = build(case)
    D = f.dims
    ctx.expect(D == case['d'], f'{name}: number of dimensions', (D, case))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        mf = f.min_fx
        mx = f.min_x
    said = ' '.join(str(w.message) for w in ws)
    known_f = mf is not None and math.isfinite(mf) and not (name == 'LennardJones') and not kw.get('sigma_fixed')
    known_x = mx is not None and 'ocation' not in said and not kw.get('sigma_fixed')
    if name == 'LennardJones':
        ctx.expect((kw['dims'] == 3) == bool(math.isfinite(mf)), f'{name}: estimate only in three dimensions', (kw, mf))
    bounds = np.array(f.bounds, float)
    if bounds.shape != (D, 2) or not np.isfinite(bounds).all() or not (bounds[:, 0] < bounds[:, 1]).all():
        ctx.viol(f'{name}: bounds', bounds.tolist())
        return
    lo, hi = bounds[:, 0], bounds[:, 1]
    if name == 'ExpLeastSquaresCost':
        ctx.expect((lo == kw['p_range'][0]).all() and (hi == kw['p_range'][1]).all(), f'{name}: bounds', bounds.tolist())
    b = formulas.bounds(name, kw)
    ctx.expect(np.allclose(bounds, [b] * D, rtol=1e-9), f'{name}: bounds are not the recommended ones', (bounds.tolist(), b))
    ctx.count('bounds')
    shift = [None]
    noisy = name == 'Stochastic' or bool(kw.get('sigma_eval'))
    tol = WIDE.get(name, 5e-6) * max(1.0, abs(mf) if known_f else 1.0)
    worst = [0.0]
    n = [0]

    def look(x, how='array'):
        """ One evaluation under watch. """
        n[0] += 1
        ctx.count('evaluations')
        arg = x if how == 'array' else [float(v) for v in x] if how == 'list' else tuple(x.tolist()) if how == 'tuple' else \
            [int(v) for v in x]
        if name == 'LennardJones' and how == 'array' and n[0] % 5 == 0:
            arg = x.reshape((kw['atoms'], kw['dims']))
        before = np.array(arg, copy=True)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            v = f(arg)
        if not np.array_equal(before, np.array(arg)):
            ctx.viol(f'{name}: argument modified', (before.tolist(), arg))
        try:
            y = float(v)
            assert np.ndim(v) == 0
        except (TypeError, ValueError, AssertionError):
            ctx.viol(f'{name}: not a number', repr(v)[:200])
            return math.nan
        if y != y or (abs(y) == math.inf and (name != 'LennardJones' or y < 0)):
            ctx.viol(f'{name}: not finite', (kw, x.tolist(), y))
            return math.inf
        with np.errstate(all='ignore'):
            want = formulas.base(name, kw, [float(u) for u in np.ravel(arg)], f)
        if want is not None:
            ctx.count('formula')
            if kw.get('sigma_eval'):
                s = kw['sigma_eval']
                ctx.expect(want * (1 - s) ** 2 - 1e-9 <= y <= want * (1 + s) ** 2 * (1 + 1e-9) + 1e-9, f'{name}: noise', (kw, y, want))
            else:
                if kw.get('shift_positive'):
                    if shift[0] is None:
                        shift[0] = y - want
                    want += shift[0]
                if not abs(y - want) <= 1e-7 * max(1.0, abs(want)):
                    ctx.viol(f'{name}: not the documented formula', f'{kw} d={D}: f({x.tolist()}) = {y}, should be {want}')
        if known_f and y < mf - tol:
            if y < mf - worst[0]:
                worst[0] = mf - y
                if name == 'Rana' and y >= -499.0 * D:
                    ctx.viol('Rana: below its declared minimum', f'd={D}: f({x.tolist()}) = {y} < {mf}')
                else:
                    ctx.viol(f'{name}: below its declared minimum', f'{kw} d={D}: f({x.tolist()}) = {y} < {mf}')
        return y

    def close(a, b):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))

    # the declared minimum
    if known_x:
        x = np.array(mx, float)
        if x.shape != (D,) or not ((lo <= x) & (x <= hi)).all():
            ctx.viol(f'{name}: location of the minimum', f'{x.tolist()} in {bounds.tolist()}')
            return
        if known_f:
            y = look(x)
            if not abs(y - mf) <= 1e-4 * max(1.0, abs(mf)) + 2e-5 * D:
                ctx.viol(f'{name}: declared minimum not attained', f'{kw} d={D}: f(min_x) = {y}, min_fx = {mf}')
            ctx.count('min_x')
    if known_f and kw.get('shift_positive'):
        ctx.count('shifted')
        if name not in ('Shekel',):
            ctx.expect(-1e-9 <= mf <= 1e-3 * D + 0.04, f'{name}: shifted minimum', (kw, mf))
    # fixed points
    pts = [(lo + hi) / 2, lo.copy(), hi.copy(), np.where(rng.rand(D) < .5, lo, hi), np.clip(np.zeros(D), lo, hi),
           np.nextafter(lo, hi), np.nextafter(hi, lo)]
    if mx is not None and np.shape(mx) == (D,):
        m = np.array(mx, float)
        pts += [np.clip(np.nextafter(m, hi), lo, hi), np.clip(np.nextafter(m, lo), lo, hi), np.clip(m * .8, lo, hi),
                np.clip((1 + 4 * m) / 5, lo, hi), np.clip(np.nextafter(.8 * m, lo), lo, hi)]
        pts += [np.clip(m + rng.normal(size=D) * 10.0 ** -rng.randint(1, 9), lo, hi) for _ in range(8)]
        if name != 'LennardJones':
            pts += [np.clip(m * rng.choice([-1, 1], D), lo, hi)]
    if name == 'Rana':
        p = np.full(D, 496.1)
        p[0] = -500.000001
        pts.append(p)
    if name == 'LennardJones' and D > kw['dims']:
        p = rng.uniform(lo, hi)
        q = p.copy()
        q[:kw['dims']] = q[kw['dims']:2 * kw['dims']]
        pts += [q, q + np.r_[1e-9, np.zeros(D - 1)], np.r_[1e-60, np.zeros(D - 1)]]
    for _ in range(case['pts']):
        p = rng.uniform(lo, hi)
        k = rng.rand()
        if k < 0.15:
            w = rng.randint(D)
            p[w] = rng.choice([lo[w], hi[w]])
        elif k < 0.3:
            p = np.clip(np.round(p), np.ceil(lo), np.floor(hi))
        elif k < 0.35:
            p[:] = p[0]
        pts.append(p)
    for k, p in enumerate(pts):
        p = np.clip(p, lo, hi)
        how = 'int' if (p == np.round(p)).all() and k % 2 == 0 else ['array', 'list', 'tuple'][k % 3]
        if how == 'int':
            ctx.count('ints')
        y = look(p, how)
        if not noisy:
            if k % 2:
                for g, what in ((f, 'again'), ):
                    z = look(p, 'array')
                    if not close(y, z) and y == y:
                        ctx.viol(f'{name}: not deterministic', (p.tolist(), y, z))
        else:
            ctx.count('noisy')
            if name == 'Stochastic':
                cap = np.sum(np.abs(p - 1 / np.arange(1, D + 1)))
                ctx.expect(-1e-12 <= y <= cap + 1e-9, f'{name}: noise', (p.tolist(), y, cap))
        if name == 'LennardJones' and k % 4 == 0:
            want = formulas.gradient(kw, p.tolist())
            if want is not None:
                ctx.count('gradients')
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    got = f.jacobian(p)
                ctx.expect(np.shape(got) == (D,) and np.allclose(got, want, rtol=1e-6, atol=1e-6 * max(1.0, float(np.max(np.abs(want))))),
                           f'{name}: not the gradient', f'{kw}: jacobian({p.tolist()}) = {np.array(got).tolist()}, should be {want}')
        if hasattr(f, 'detailed_call') and not noisy:
            d = f.detailed_call(p)
            ctx.expect(close(float(d[0]), y) and close(float(np.sum(np.array(d[1]) ** 2)), y), f'{name}: detailed form', (p.tolist(), y))
            ctx.expect(len(d[1]) == f.n_train, f'{name}: number of contributions', (len(d[1]), f.n_train))
    # descents
    if known_f:
        for r in range(case['down']):
            x = rng.uniform(lo, hi)
            if r == 0 and mx is not None and np.shape(mx) == (D,):
                x = np.array(mx, float)
            y = look(x)
            s = (hi - lo) * 0.2
            for k in range(150):
                z = x.copy()
                if rng.rand() < 0.5:
                    w = rng.randint(D)
                    z[w] += rng.normal() * s[w]
                else:
                    z += rng.normal(size=D) * s
                z = np.clip(z, lo, hi)
                v = look(z)
                if v < y:
                    x, y = z, v
                else:
                    s *= 0.95
                    if s[0] < (hi - lo)[0] * 1e-9:
                        s = (hi - lo) * 0.05
            ctx.count('descents')
    if known_f and D <= 2 and name != 'Rana' and not known_x:
        # the location is not declared: the minimum has to be found
        best = math.inf
        side = np.linspace(0, 1, 2001 if D == 1 else 81)
        grid = np.array(np.meshgrid(*[side] * D)).reshape(D, -1).T * (hi - lo) + lo
        vals = np.array([look(p) for p in grid])
        for p in grid[np.argsort(vals)[:12]]:
            x, y = p, look(p)
            s = (hi - lo) * 0.02
            for k in range(250):
                z = np.clip(x + rng.normal(size=D) * s, lo, hi)
                v = look(z)
                if v < y:
                    x, y = z, v
                else:
                    s = s * 0.95
            best = min(best, y)
        ctx.count('searched')
        ctx.expect(best - mf <= 1e-3 * max(1.0, abs(mf)), f'{name}: declared minimum not attained',
                   f'{kw} d={D}: lowest found {best}, min_fx = {mf}')
    if case['delay']:
        g = build(case, delay=0.01)
        t0 = time.monotonic()
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            g(np.clip((lo + hi) / 2 + 0.01, lo, hi))
        ctx.expect(time.monotonic() - t0 >= 0.0099, f'{name}: delay not respected', time.monotonic() - t0)
        ctx.expect(g.delay == 0.01, f'{name}: delay', g.delay)
        ctx.count('delays')
    ctx.count('f_' + name)
    if n[0] >= 50:
        ctx.sig(name, D, str(sorted(kw.items())))
    ctx.note(function=name, dims=D, points=n[0], declared=mf)
