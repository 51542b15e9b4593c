"""The documented formulas of the benchmark functions, in plain Python, and their recommended bounds.

Where the documentation of the repository is incomplete (the pieces of Deceptive, the tables of Shekel) or contradicts the minimum
it states (Shubert's first style is a product, not a sum), the referenced literature decides."""
from math import cos, e, exp, fabs, log, pi, prod, sin, sqrt

SHEKEL_C = [[4, 4, 4, 4], [1, 1, 1, 1], [8, 8, 8, 8], [6, 6, 6, 6], [3, 7, 3, 7], [2, 9, 2, 9], [5, 5, 3, 3], [8, 1, 8, 1],
            [6, 2, 6, 2], [7, 3.6, 7, 3.6]]
SHEKEL_B = {5: [.1, .2, .2, .4, .6], 7: [.1, .2, .2, .4, .4, .6, .3], 10: [.1, .2, .2, .4, .4, .6, .3, .7, .5, .5]}

BOUNDS = {'Ackley': (-32.768, 32.768), 'Alpine01': (-10, 10), 'Alpine02': (0, 10), 'Deceptive': (0, 1), 'Easom': (-100, 100),
          'Griewank': (-600, 600), 'Langermann': (0, 10), 'Levy': (-10, 10), 'Michalewicz': (0, pi), 'Qing': (-500, 500),
          'Rana': (-500.000001, 500.000001), 'Rastrigin': (-5.12, 5.12), 'Rosenbrock': (-2.048, 2.048), 'Schwefel': (-500, 500),
          'Shekel': (-32.768, 32.768), 'Shubert': (-10, 10), 'Stochastic': (-5, 5), 'StyblinskiTang': (-500, 500),
          'Trigonometric': (-500, 500), 'Vincent': (0.25, 10), 'ZeroSum': (-10, 10)}


def bounds(name, kw):
    if name == 'ExpLeastSquaresCost':
        return tuple(kw['p_range'])
    if name == 'LennardJones':
        b = 2 ** (-1 / 6) * kw['sigma'] * (pi * kw['atoms'] / 3) ** (1 / 3)
        return -b, b
    return BOUNDS[name]


def piece(x, a):
    if x <= 0.8 * a:
        return 0.8 - x / a
    if x <= a:
        return 5 * x / a - 4
    if x <= (1 + 4 * a) / 5:
        return 5 * (x - a) / (a - 1) + 1
    return (x - 1) / (1 - a) + 0.8


def base(name, kw, x, f):
    """ Value before any shift or noise (None: only noise). """
    d = len(x)
    if name == 'Ackley':
        a, b, c = kw.get('a', 20), kw.get('b', 0.2), kw.get('c', 2 * pi)
        return -a * exp(-b * sqrt(sum(v * v for v in x) / d)) - exp(sum(cos(c * v) for v in x) / d) + a + e
    if name == 'Alpine01':
        return sum(fabs(v * sin(v) + 0.1 * v) for v in x)
    if name == 'Alpine02':
        return -prod(sqrt(v) * sin(v) for v in x)
    if name == 'Deceptive':
        return -(max(0.0, sum(max(0.0, piece(v, a)) for v, a in zip(x, f.min_x)) / d)) ** kw.get('b', 2)
    if name == 'Easom':
        return -cos(x[0]) * cos(x[1]) * exp(-(x[0] - pi) ** 2 - (x[1] - pi) ** 2)
    if name == 'Griewank':
        return sum(v * v for v in x) / 4000 - prod(cos(v / sqrt(i)) for i, v in enumerate(x, 1)) + 1
    if name == 'Langermann':
        t = 0
        for a, b, c in zip((3, 5, 2, 1, 7), (5, 2, 1, 4, 9), (1, 2, 5, 2, 3)):
            r = (x[0] - a) ** 2 + (x[1] - b) ** 2
            t -= c * cos(pi * r) / exp(r / pi)
        return t
    if name == 'ExpLeastSquaresCost':
        return sum((sum(exp(-p * u) for p in x) - g) ** 2 for u, g in zip(f.u_train, f.g_train))
    if name == 'LennardJones':
        n, k = kw['atoms'], kw['dims']
        t = 0
        for i in range(n):
            for j in range(i):
                r2 = sum((x[i * k + q] - x[j * k + q]) ** 2 for q in range(k))
                if r2 < 1e-3 * kw['sigma'] ** 2:        # nearly coinciding atoms: the sum is lost in rounding or infinite
                    return None
                s = (kw['sigma'] ** 2 / r2) ** 3
                t += 4 * kw['eps'] * (s * s - s)
        return t
    if name == 'Levy':
        w = [1 + (v - 1) / 4 for v in x]
        return sin(pi * w[0]) ** 2 + sum((v - 1) ** 2 * (1 + 10 * sin(pi * v + 1) ** 2) for v in w[:-1]) \
            + (w[-1] - 1) ** 2 * (1 + sin(2 * pi * w[-1]) ** 2)
    if name == 'Michalewicz':
        return -sum(sin(v) * fabs(sin(i * v * v / pi)) ** (2 * kw.get('m', 10)) for i, v in enumerate(x, 1))
    if name == 'Qing':
        return sum((v * v - i) ** 2 for i, v in enumerate(x, 1))
    if name == 'Rana':
        t = 0
        for v in x:
            a, b = sqrt(fabs(x[0] - v + 1)), sqrt(fabs(x[0] + v + 1))
            t += v * sin(a) * cos(b) + (x[0] + 1) * sin(b) * cos(a)
        return t
    if name == 'Rastrigin':
        return 10 * d + sum(v * v - 10 * cos(2 * pi * v) for v in x)
    if name == 'Rosenbrock':
        return sum(100 * (x[i + 1] - x[i] ** 2) ** 2 + (x[i] - 1) ** 2 for i in range(d - 1))
    if name == 'Schwefel':
        return -sum(v * sin(sqrt(fabs(v))) for v in x)
    if name == 'Shekel':
        m = kw.get('m', 10)
        return -sum(1 / (b + sum((v - c) ** 2 for v, c in zip(x, row))) for row, b in zip(SHEKEL_C, SHEKEL_B[m]))
    if name == 'Shubert':
        g = sin if kw.get('style', 1) == 3 else cos
        parts = [sum(j * g((j + 1) * v + j) for j in range(1, 6)) for v in x]
        return prod(parts) if kw.get('style', 1) == 1 else sum(parts)
    if name == 'StyblinskiTang':
        return sum(v ** 4 - 16 * v * v + 5 * v for v in x) / 2
    if name == 'Trigonometric':
        return 1 + sum(8 * sin(7 * (v - .9) ** 2) ** 2 + 6 * sin(14 * (v - .9) ** 2) ** 2 + (v - .9) ** 2 for v in x)
    if name == 'Vincent':
        return -sum(sin(10 * log(v)) for v in x)
    if name == 'ZeroSum':
        t = sum(x)
        if 0 < fabs(t) < 1e-9:                          # zero or not is a matter of rounding
            return None
        return 0 if t == 0 else 1 + sqrt(10000 * fabs(t))
    return None                                         # Stochastic: judged by its range


def gradient(kw, x):
    """ Lennard-Jones. """
    n, k = kw['atoms'], kw['dims']
    g = [0.0] * (n * k)
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            r2 = sum((x[i * k + q] - x[j * k + q]) ** 2 for q in range(k))
            if r2 < 1e-3 * kw['sigma'] ** 2:
                return None
            s = (kw['sigma'] ** 2 / r2) ** 3
            for q in range(k):
                g[i * k + q] += 4 * kw['eps'] * (-12 * s * s + 6 * s) / r2 * (x[i * k + q] - x[j * k + q])
    return g
