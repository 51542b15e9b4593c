"""Output files: simulated runs of every output level, ending and kind of settings in directories with earlier results."""
import collections
import copy
import enum
import functools
import hashlib
import inspect
import math
import os
import random
import re
import sys
import types
import warnings
from datetime import datetime, timedelta
from pathlib import Path

import numpy as np
import tables as tb
import yaml

from gmon import oracle as orc
from gmon import scenario as sc
from gmon import simchecks, world as wmod
from gmon.world import RecChecker, RecGenerator, RecHunter, RecSelector, ScriptOpt, dec, same

from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.common.namedtuples import IterationResult

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: directory contents are recorded before and after every run (hashes of all files, links and targets); the '
             'summary is read back with a loader of plain YAML and compared with the events recorded during the run; calls into the plotting '
             'library are recorded and compared with the evaluations')
LEVEL_NOTE = 'Settings objects, endings and directory contents sampled from VERIF_SEED.'
RULE = (simchecks.RULE + ' Output level 0-4, ending by condition, exhaustion, interrupt, failure of any component or before the start, with '
        'odd settings objects and descriptions, empty directories or ones with results of earlier runs and foreign files, overwriting or '
        'not; summaries written on request before, during and after a run and from a loaded checkpoint.')
ASSUMPTIONS = simchecks.ASSUMPTIONS + [
    'Results which make a run refuse to start: summary, trajectory images, parameter images, log file (names the manager uses). Print '
    'streams of an earlier run are not results of this kind, they are replaced.',
    'Descriptions in the summary may be re-indented and broken at brackets: they are compared without white space and brackets.']
CASES = {'quick': 330, 'thorough': 5000}
HANG = 200
REQUIRED = ['summaries', 'none_asked', 'level_1', 'level_2', 'level_3', 'refused', 'overwritten', 'foreign_files', 'end_exhausted',
            'end_condition', 'end_interrupt', 'end_crash', 'end_before_start', 'odd_values', 'odd_text', 'on_request', 'during_run',
            'from_checkpoint', 'plotted_lines', 'log_scale', 'links', 'save_failed', 'h5_checked', 'no_result', 'bounds_mixed',
            'with_checkpoints', 'twice', 'trial_plots']


# ---- odd settings -----------------------------------------------------------------------------------------------------
class Cyc:
    def __init__(self):
        self.a = 1
        self.me = self


class BadProp:
    x = 3

    @property
    def p(self):
        raise RuntimeError('not available')


class Slots:
    __slots__ = ('a', 'b')

    def __init__(self):
        self.a = 1


class Colour(enum.Enum):
    RED = 1


class Num(enum.IntEnum):
    ONE = 1


NTup = collections.namedtuple('NTup', 'a b')


def some_function(x):
    return x


def generator_function():
    yield 1


SAME = object()
NAME = lambda s: ('name', s)
# name -> (maker, expected plain value or SAME / None for "anything")
VALUES = {
    'int': (lambda: 3, 3), 'float': (lambda: 1.5e-7, 1.5e-7), 'big': (lambda: 10 ** 40, 10 ** 40), 'bool': (lambda: False, False),
    'none': (lambda: None, None), 'nan': (lambda: math.nan, math.nan), 'inf': (lambda: -math.inf, -math.inf),
    'tiny': (lambda: 5e-324, 5e-324), 'str': (lambda: 'abc', 'abc'), 'strnum': (lambda: '1e5', '1e5'), 'stryes': (lambda: 'yes', 'yes'),
    'multi': (lambda: 'multi\nline \n\ttab ', 'multi\nline \n\ttab '), 'ctl': (lambda: 'a\x07b\r\nq', 'a\x07b\r\nq'),
    'uni': (lambda: 'é☃\u2028x', 'é☃\u2028x'), 'colon': (lambda: 'a: b # c', 'a: b # c'), 'empty': (lambda: '', ''),
    'list': (lambda: [1, [2.5, 'x']], [1, [2.5, 'x']]), 'dict': (lambda: {'a': {'b': [1]}}, {'a': {'b': [1]}}),
    'tuple': (lambda: (1, 2), [1, 2]), 'nested': (lambda: {'a': [{'b': (np.float32(1), (True,))}]}, {'a': [{'b': [1.0, [True]]}]}),
    'emptytuple': (lambda: (), []), 'set': (lambda: {1, 2}, {1, 2}), 'setoftuples': (lambda: {(1, 2)}, None),
    'npf': (lambda: np.float64(1.5), 1.5), 'npi': (lambda: np.int32(3), 3), 'npb': (lambda: np.bool_(True), True),
    'npstr': (lambda: np.str_('hé'), 'hé'), 'arr': (lambda: np.arange(3.), [0.0, 1.0, 2.0]), 'arr2': (lambda: np.ones((2, 2)), [[1.0, 1.0]] * 2),
    'arr0': (lambda: np.array(3.), None), 'npc': (lambda: np.complex128(1 + 2j), None), 'npdt': (lambda: np.datetime64('2020-01-01'), None),
    'objarr': (lambda: np.array([None, 'a'], dtype=object), [None, 'a']), 'struct': (lambda: np.zeros(2, dtype=[('a', float), ('b', int)]), None),
    'npvoid': (lambda: np.zeros(2, dtype=[('a', float), ('b', int)])[0], None), 'bytes': (lambda: b'abc', None), 'bytearr': (lambda: bytearray(b'x'), None),
    'cplx': (lambda: 1j, None), 'lambda': (lambda: (lambda x: x), None), 'func': (lambda: some_function, NAME('some_function')),
    'builtin': (lambda: len, NAME('len')), 'class': (lambda: Cyc, NAME('Cyc')), 'type': (lambda: int, NAME('int')), 'abc': (lambda: RecSelector, NAME('RecSelector')),
    'cyc': (lambda: Cyc(), None), 'badprop': (lambda: BadProp(), {'BadProp': {'x': 3}}), 'slots': (lambda: Slots(), {'Slots': {'a': 1}}),
    'enum': (lambda: Colour.RED, None), 'intenum': (lambda: Num.ONE, None), 'ntup': (lambda: NTup(1, 2), None),
    'od': (lambda: collections.OrderedDict([('b', 1), ('a', 2)]), {'b': 1, 'a': 2}), 'dd': (lambda: collections.defaultdict(int, {1: 2}), {1: 2}),
    'deque': (lambda: collections.deque([1]), None), 'frozenset': (lambda: frozenset([1]), None), 'path': (lambda: Path('/a/b'), None),
    'tuplekey': (lambda: {(1, 2): 3, None: 4}, None), 'objkey': (lambda: {Cyc: 1, some_function: 2}, None), 'range': (lambda: range(5), None),
    'mod': (lambda: math, None), 'rs': (lambda: np.random.RandomState(3), None), 'obj': (lambda: object(), None), 'ell': (lambda: ..., None),
    'slice': (lambda: slice(1, 2), None), 'dt': (lambda: np.dtype(float), None), 'exc': (lambda: ValueError('x', ('y',)), None),
    'partial': (lambda: functools.partial(some_function, 1), None), 'method': (lambda: Cyc().__init__, None), 'date': (lambda: datetime(2020, 1, 2, 3, 4, 5), datetime(2020, 1, 2, 3, 4, 5)),
    'gen': (lambda: generator_function(), None), 'td': (lambda: timedelta(3), None), 'warn': (lambda: UserWarning, NAME('UserWarning')),
    'simple': (lambda: types.SimpleNamespace(a=(1,), b={'c': np.int8(4)}), {'SimpleNamespace': {'a': [1], 'b': {'c': 4}}}),
}

TEXTS = ['', ' ', 'plain', '[A & \n[B = True | \nC]]', '[', ']', '][', '---\n...', '- a: b\n  c', '!!python/object:os.system', '%YAML 1.1',
         'tab\there', 'trailing \n  leading', 'é☃ non-ascii', 'ctl \x07\x1b[0m', 'x' * 3000, '"quoted" \'text\' \\n', '# comment', '{a: 1}',
         'a\r\nb', 'a\n\n\nb\n', '|-\n x', '&anchor *alias', '\ufeffbom', 'nul\x00byte', '? key\n: value', 'surrogate-free \U0001f600']


class OddChecker(RecChecker):
    def __init__(self, fmax=math.inf, rounds=math.inf, text=''):
        super().__init__(fmax, rounds)
        self.text = text

    def __str__(self):
        return self.text


class OddHunter(RecHunter):
    def __init__(self, p, seed, text):
        super().__init__(p, seed)
        self.text = text

    def __str__(self):
        return self.text


class OddGenerator(RecGenerator):
    """ Carries settings, some of which can not be looked at. """

    def __init__(self, seed, odd):
        super().__init__(seed)
        self.odd = odd

    @property
    def not_yet(self):
        raise AttributeError('not before the start')


class OddStop:
    def __init__(self, odd):
        self.odd = odd

    def __call__(self, manager):
        return True


class OddError(RuntimeError):
    text = ''

    def __init__(self, *a):
        super().__init__(OddError.text)


RESULTS = ['glompo_manager_log.yml', 'trajectories.png', 'trajectories_log.png', 'opt1_parms.png', 'opt12_parms.png', 'glompo_log.h5']
FOREIGN = ['notes.txt', 'my_trajectories.png', 'trajectories.pdf', 'glompo_manager_log.yml.bak', 'glompo_manager_log.yaml',
           'glompo_log.h5.old', 'my_glompo_log.h5', 'optimal_parms.png', 'opt_parms.png', 'opt1_parms.png.txt', 'sub/glompo_manager_log.yml',
           'sub/trajectories.png', 'sub/opt1_parms.png', 'manager_log.yml', 'chk/old_chk.tar.gz', 'opt3_parms.jpg', 'log.h5', 'data.yml',
           'trajectories_of_my_thesis.png', 'optimizer_1.log', '.hidden', 'glompo_optimizer_printstreams_old/printstream_0001.out',
           'glompo_log_2.h5', 'options_parms.png']


def gen(i, rng, tier):
    r = rng.random()
    if r < 0.06:
        return {'kind': 'trials', 'seed': rng.randrange(2 ** 31), 'opts': rng.randint(1, 4), 'n': rng.choice([1, 5, 40]), 'file': rng.random() < 0.5,
                'log': rng.random() < 0.5, 'best': rng.random() < 0.5, 'style': rng.choice(['rand', 'ties', 'desc', 'neg', 'huge']), 'only': rng.random() < 0.4}
    c = sc.base_cfg(rng)
    c['kind'] = 'run'
    c['hi'] = rng.choice([0, 3, 10, 30])
    c['style'] = rng.choice(sc.STYLES + ['mix', 'bad', 'huge', 'neg'])
    c['max_opts'] = rng.choice([1, 2, 4])
    c['max_steps'] = 60000
    c['summary'] = rng.choice([0, 1, 1, 1, 1, 1, 1, 2, 3, 3, 4]) if tier == 'quick' else rng.choice([0, 1, 1, 1, 2, 3, 4])
    if rng.random() < 0.3:
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1]]
    c['finish'] = rng.choice(['normal'] * 8 + ['interrupt'] * 3 + ['crash'] * 4 + ['before'])
    c['at'] = rng.choice([1, 2, 3, 6, 12])
    c['comp'] = rng.choice(['checker', 'checker', 'selector', 'generator', 'hunter'])
    if c['comp'] == 'checker':
        c['at'] += 3                        # after the question before the start
    c['odd'] = rng.sample(sorted(VALUES), rng.choice([0, 1, 1, 2, 4]))
    if c['summary'] < 4:
        sc.many(c, rng, 0.05, (13,))
    c['text'] = [rng.choice(TEXTS) if rng.random() < 0.4 else None for _ in range(3)]
    c['combine'] = rng.random() < 0.3
    c['bounds'] = rng.choice([None, None, 'mixed', 'numpy', 'same', 'int'])
    c['pre'] = []
    if rng.random() < 0.45:
        c['pre'] = rng.sample(RESULTS, rng.choice([1, 1, 2, 4]))
    c['foreign'] = rng.sample(FOREIGN, rng.choice([0, 3, 8, 24]))
    c['streams'] = rng.random() < 0.3
    c['link'] = rng.choice([None, None, None, 'trajectories.png', 'glompo_manager_log.yml', 'opt2_parms.png'])
    c['overwrite'] = rng.random() < 0.5
    c['request'] = rng.choice([None, None, 'before', 'during', 'after', 'other'])
    c['chk'] = None if rng.random() < 0.6 or c['odd'] else {'keep': -1, 'init': rng.random() < .5, 'conv': True, 'raise': False}
    c['after_load'] = rng.random() < 0.8
    c['fail_save'] = rng.choice([None] * 12 + ['gone', 'dump', 'plot', 'directory'])
    c['twice'] = rng.choice([None, None, None, False, True])
    c['deep_wd'] = rng.random() < 0.2
    return c


# ---- looking at directories -------------------------------------------------------------------------------------------
def tree(d):
    out = {}
    for root, dirs, files in os.walk(str(d)):
        for n in dirs + files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, str(d))
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ('dir',)
            else:
                st = os.stat(p)
                with open(p, 'rb') as f:
                    out[rel] = ('file', hashlib.sha1(f.read()).hexdigest(), st.st_mtime_ns, st.st_ino)
    return out


def produced(name):
    """ Names of the kinds of files the manager produces. """
    return bool(re.match(r'^(glompo_manager_log\.yml|trajectories(_log)?(_best)?\.png|opt[0-9]+_parms\.png|glompo_log\.h5)$', name))


def plainly(node, seen=None):
    """ Only plain types. """
    seen = seen if seen is not None else set()
    if id(node) in seen:
        return True
    if node is None or type(node) in (str, int, float, bool, bytes) or type(node).__module__ == 'datetime':
        return True
    seen.add(id(node))
    if type(node) is dict:
        return all(plainly(k, seen) and plainly(v, seen) for k, v in node.items())
    if type(node) in (list, set):
        return all(plainly(v, seen) for v in node)
    return False


def eq(a, b):
    if type(b) is float and type(a) in (int, float):
        return same(float(a), b)
    if isinstance(b, dict):
        return type(a) is dict and set(a) == set(b) and all(eq(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def squeeze(s):
    return re.sub(r'[\s\[\]\u2028\ufeff]', '', str(s))


class Plots:
    """ Records what is drawn. """

    def __init__(self):
        self.lines = []
        self.files = []

    def __enter__(self):
        import matplotlib
        matplotlib.use('agg')
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        self.A, self.F = Axes, Figure
        self.o, self.s = Axes.plot, Figure.savefig

        def plot(ax, *a, **k):
            self.lines.append((id(ax.figure), [np.array(i, dtype=float, copy=True) for i in a if not isinstance(i, str)], dict(k)))
            return self.o(ax, *a, **k)

        def savefig(fig, fname, *a, **k):
            self.files.append((id(fig), str(fname)))
            return self.s(fig, fname, *a, **k)

        Axes.plot, Figure.savefig = plot, savefig
        return self

    def __exit__(self, *a):
        self.A.plot, self.F.savefig = self.o, self.s


def logged(v):
    with np.errstate(all='ignore'):
        return np.sign(v) * np.log10(np.abs(v))


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)


# ---- the summary ------------------------------------------------------------------------------------------------------
def read(path, ctx):
    try:
        with open(str(path), 'rb') as f:
            raw = f.read()
        text = raw.decode('utf-8')
    except (OSError, UnicodeDecodeError) as e:
        ctx.viol('summary can not be read', repr(e))
        return None
    try:
        y = yaml.load(text, Loader=yaml.SafeLoader)
    except yaml.YAMLError as e:
        ctx.viol('summary is not plain YAML', str(e)[-600:])
        return None
    if not isinstance(y, dict) or not plainly(y):
        ctx.viol('summary does not hold plain types', str(y)[:300])
        return None
    ctx.count('summaries')
    return y


def g(y, *path):
    for k in path:
        if not isinstance(y, dict) or k not in y:
            return ('missing', path)
        y = y[k]
    return y


def settings(y, case, m, ctx, bounds, wd):
    ctx.expect(g(y, 'Settings', 'Max Jobs') == m.max_jobs, 'summary: job limit', g(y, 'Settings', 'Max Jobs'))
    bg = g(y, 'Settings', 'Bounds')
    back = {}
    ok = isinstance(bg, dict)
    if ok:
        for k, idx in bg.items():
            mt = re.match(r'^\((.*), (.*)\)$', str(k))
            if not mt:
                ok = False
                break
            for j in idx:
                ok = ok and j not in back
                back[j] = (float(mt.group(1)), float(mt.group(2)))
    ctx.expect(ok and back == {j: (float(a), float(b)) for j, (a, b) in enumerate(bounds)}, 'summary: bounds', (bg, bounds))
    ctx.expect(squeeze(g(y, 'Settings', 'Convergence Checker')) == squeeze(str(m.convergence_checker)), 'summary: convergence checker',
               (g(y, 'Settings', 'Convergence Checker'), str(m.convergence_checker)))
    h = g(y, 'Settings', 'Hunt Conditions')
    if m.killing_conditions is None:
        ctx.expect(h is None, 'summary: hunt conditions', h)
    else:
        ctx.expect(squeeze(h) == squeeze(str(m.killing_conditions)), 'summary: hunt conditions', (h, str(m.killing_conditions)))
    gname = g(y, 'Settings', 'x0 Generator', 'Generator')
    ctx.expect(gname == type(m.x0_generator).__name__, 'summary: generator', gname)
    ctx.expect(g(y, 'Settings', 'x0 Generator', 'seed') == m.x0_generator.seed, 'summary: generator settings', g(y, 'Settings', 'x0 Generator'))
    sel = g(y, 'Settings', 'Optimizer Selector')
    ctx.expect(g(sel, 'Selector') == type(m.opt_selector).__name__, 'summary: selector', sel)
    av = g(sel, 'Available Optimizers')
    if not isinstance(av, dict) or [av.get(j, {}).get('type') for j in range(len(av))] != [o[0].__name__ for o in m.opt_selector.avail_opts]:
        ctx.viol('summary: available optimizers', av)
    else:
        for j, w in enumerate(case['opts']):
            ik, ck = av[j].get('init_kwargs'), av[j].get('call_kwargs')
            ctx.expect(g(ik, 'workers') == w and g(ik, 'tag') == j and g(ck, 'mark') == j, 'summary: optimizer settings', (ik, ck))
            if j == 0:
                for name in case['odd']:
                    exp = VALUES[name][1]
                    for where in (ik, ck) if copyable(name) else ():
                        got = g(where, 'odd_' + name)
                        if isinstance(exp, tuple) and exp and exp[0] == 'name':
                            ctx.expect(isinstance(got, str) and exp[1] in got, f'summary: value of a setting ({name})', got)
                        elif exp is not None or name == 'none':
                            ctx.expect(eq(got, exp), f'summary: value of a setting ({name})', (got, exp))
                        else:
                            ctx.expect(not (isinstance(got, tuple) and got[:1] == ('missing',)), f'summary: setting missing ({name})', where)
                        ctx.count('odd_values')
    ctx.expect(g(y, 'Assignment', 'Working Dir') == str(Path(wd).resolve()), 'summary: working directory', (g(y, 'Assignment', 'Working Dir'), str(wd)))
    ctx.expect(g(y, 'Assignment', 'Task') == 'SimTask', 'summary: task', g(y, 'Assignment', 'Task'))


def counters(y, f, hunts, started, killed, conv, ctx):
    ctx.expect(g(y, 'Counters', 'Function Evaluations') == f, 'summary: evaluations', (g(y, 'Counters'), f))
    if hunts is not None:
        ctx.expect(g(y, 'Counters', 'Hunts Started') == hunts, 'summary: hunts', (g(y, 'Counters'), hunts))
    ctx.expect(g(y, 'Counters', 'Optimizers', 'Started') == started, 'summary: optimizers started', (g(y, 'Counters'), started))
    ctx.expect(g(y, 'Counters', 'Optimizers', 'Killed') == killed, 'summary: optimizers killed', (g(y, 'Counters'), killed))
    if conv is not None:
        ctx.expect(g(y, 'Counters', 'Optimizers', 'Converged') == conv, 'summary: optimizers converged', (g(y, 'Counters'), conv))


def solution(y, x, fx, origin, ctx):
    sx, sf, so = g(y, 'Solution', 'x'), g(y, 'Solution', 'fx'), g(y, 'Solution', 'origin')
    if x is None or not len(x):
        ctx.expect(sx in (None, []) and (sf is None or sf == math.inf) and (fx is None) == (sf is None), 'summary: solution of a run without one', (sx, sf))
        ctx.count('no_result')
        return
    ctx.expect(isinstance(sx, list) and len(sx) == len(x) and all(type(a) in (int, float) and same(float(a), float(b)) for a, b in zip(sx, x)),
               'summary: solution parameters', (sx, x))
    ctx.expect(type(sf) in (int, float) and same(float(sf), float(fx)), 'summary: solution value', (sf, fx))
    ctx.expect(eq(so, dict(origin)), 'summary: solution origin', (so, origin))


# ---- cases ------------------------------------------------------------------------------------------------------------
def trials(case, ctx):
    rng = random.Random(case['seed'])
    with sc.scratch() as d, Plots() as P:
        nd = 3
        log = FileLogger(nd, 50, False) if case['file'] else BaseLogger(False)
        if case['file']:
            log.open(d / 'glompo_log.h5', 'w', 'abc')
        per = {}
        n = 0
        import io
        for o in range(1, case['opts'] + 1):
            log.add_optimizer(o, 'Opt%d' % o, datetime(2020, 1, 1))
            per[o] = []
        for o in range(1, case['opts'] + 1):
            log.add_iter_history(o)
        todo = [o for o in per for _ in range(case['n'])]
        rng.shuffle(todo)
        vals = sc.values(rng, case['style'], len(todo))
        for o, v in zip(todo, vals):
            n += 1
            x = [rng.random() for _ in range(nd)]
            per[o].append((n, v, x))
            log.put_iteration(IterationResult(o, x, v, []))
        if case['file']:
            log.flush()
        log.put_metadata(1, 'end_cond', 'GloMPO Termination')
        (d / 'out').mkdir()
        log.plot_trajectory(d / 'out' / 'a.png', case['log'], case['best'])
        ctx.expect((d / 'out' / 'a.png').read_bytes()[:8] == b'\x89PNG\r\n\x1a\n', 'trajectory image', 'a.png')
        fig = P.files[-1][0]
        check_lines(P, fig, per, case['log'], case['best'], ctx)
        P.lines.clear()
        P.files.clear()
        if case['only']:
            log.plot_optimizer_trials(d / 'out', 1)
        else:
            log.plot_optimizer_trials(d / 'out')
        want = {'opt%d_parms.png' % o for o in (per if not case['only'] else [1])}
        got = {p.name for p in (d / 'out').iterdir()} - {'a.png'}
        ctx.expect(got == want, 'parameter images', (got, want))
        for fig, fname in P.files:
            o = int(re.match(r'opt(\d+)_', os.path.basename(fname)).group(1))
            lines = [a for f, a, k in P.lines if f == fig]
            ctx.expect(len(lines) == 1 and close(lines[0][0], np.array([x for _, _, x in per[o]])), 'parameter image does not show the parameters', o)
        ctx.count('trial_plots', len(P.files))
        if case['file']:
            log.close()
    ctx.sig('trials', str(sorted(case.items())))


def check_lines(P, fig, per, log, best, ctx):
    lines = [(a, k) for f, a, k in P.lines if f == fig and len(a) == 2 and a[0].ndim == 1]
    for o, rows in per.items():
        if not rows:
            continue
        y = np.array([v for _, v, _ in rows], float)
        if best:
            y = np.array([min(y[:i + 1]) for i in range(len(y))])
        if log:
            y = logged(y)
        x = [c for c, _, _ in rows]
        hit = [1 for a, k in lines if close(a[0], x) and close(a[1], y)]
        ctx.expect(len(hit) >= 1, 'trajectory image does not show the evaluations', (o, x[:5], list(y[:5]), len(lines)))
        ctx.count('plotted_lines', len(hit))
    if log:
        ctx.count('log_scale')


BOUNDS = {None: [(-1e303, 1e303)] * 3, 'mixed': [(-10 ** 303, 10 ** 303), (-1e303, 1e303), (np.float64(-1e303), 1e303)],
          'numpy': np.array([[-1e303, 1e303], [-5e302, 2e303], [-1e303, 1e303]]), 'same': [(-1e303, 1e303)] * 3,
          'int': [(-10 ** 303, 10 ** 303)] * 2 + [(-1, 1e303)]}
BOUNDS['mixed'] = [(-0.0, 1), (0, 1.0), (0.0, np.float64(1))]
BOUNDS['int'] = [(-3, 4)] * 2 + [(-3, 5.5)]


def populate(case, wd, d):
    wd.mkdir(parents=True, exist_ok=True)
    for n in case['pre'] + case['foreign']:
        p = wd / n
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text('old ' + n)
    if case['streams']:
        p = wd / 'glompo_optimizer_printstreams'
        p.mkdir()
        for n in ('printstream_0001.out', 'printstream_0001.err', 'readme'):
            (p / n).write_text('old')
    if case['link'] and not (wd / case['link']).exists():
        (d / 'outside').mkdir()
        (d / 'outside' / 'precious').write_text('precious')
        os.symlink(str(d / 'outside' / 'precious'), str(wd / case['link']))
        return True
    return False


def run(case, ctx):
    if case['kind'] == 'trials':
        return trials(case, ctx)
    with sc.scratch() as d:
        session(case, ctx, d)


def copyable(name):
    try:
        copy.deepcopy(VALUES[name][0]())
        return True
    except Exception:
        return False


def components(case):
    odd = {'odd_' + n: VALUES[n][0]() for n in case['odd']}
    t = case['text']
    fmax = case['fmax'] if case['fmax'] is not None else math.inf
    rounds = case['rounds'] if case['rounds'] is not None else math.inf
    if case['finish'] == 'before':
        fmax = 0
    chk = RecChecker(fmax, rounds) if t[0] is None else OddChecker(fmax, rounds, t[0])
    if case['combine']:
        chk = chk | RecChecker(fmax + 7, rounds) & OddChecker(fmax, rounds, t[0] or 'other')
    hunt = None
    if case['hunt'] is not None:
        hunt = RecHunter(case['hunt'], case['seed']) if t[1] is None else OddHunter(case['hunt'], case['seed'], t[1])
    gener = OddGenerator(case['gen_seed'], dict(odd)) if case['odd'] else RecGenerator(case['gen_seed'])
    able = {k: x for k, x in odd.items() if copyable(k[4:])}           # settings of an optimizer are copied for it
    opts = [(ScriptOpt, {'workers': w, 'tag': i, **(able if i == 0 else {})}, {'mark': i, **(able if i == 0 else {})}) for i, w in enumerate(case['opts'])]
    sel = RecSelector(*opts, seed=case['seed'], max_opts=case['max_opts'], p_none=case['p_none'], allow_spawn=OddStop(odd) if case['odd'] else None)
    if any(x is not None for x in t):
        return chk, hunt, gener, sel, True
    return chk, hunt, gener, sel, False


def session(case, ctx, d):
    wd = d / 'deep' / 'er' / 'wd' if case['deep_wd'] and not case['pre'] else d / 'wd'
    linked = False
    if wd.parent == d or case['pre'] or case['foreign'] or case['streams']:
        linked = populate(case, wd, d)
    has_results = bool(case['pre']) or linked
    before = tree(wd) if wd.exists() else {}
    outside = tree(d / 'outside') if linked else {}
    chk, hunt, gener, sel, texts = components(case)
    if texts:
        ctx.count('odd_text')
    bounds = BOUNDS[case['bounds']]
    if case['bounds'] == 'mixed':
        ctx.count('bounds_mixed')
    OddError.text = case['text'][2] if case['text'][2] is not None else 'failure'
    req = {}

    def request(m, target, when):
        """ Ask for a summary and judge it. """
        had = tree(wd) if wd.exists() else {}
        chks = [e for e in m._gmon_world.of('check')]
        if target is None:
            if not wd.exists():
                return
            if any(produced(n) for n in had):
                return                                                     # would not be told apart
            m.write_summary_file()
            p = wd / 'glompo_manager_log.yml'
        else:
            m.write_summary_file(target)
            p = target / 'glompo_manager_log.yml'
        y = read(p, ctx)
        if y is None:
            return
        ctx.count('on_request')
        settings(y, case, m, ctx, bounds, wd)
        counters(y, len(m._gmon_world.rec), m.hunt_counter, m.o_counter, len(m.hunt_victims), m.conv_counter, ctx)
        solution(y, m.result.x, m.result.fx, m.result.origin, ctx)
        if target is not None:
            now = tree(wd) if wd.exists() else {}
            ctx.expect({k: v for k, v in now.items() if k in had} == had and set(now) == set(had), 'requested summary touched the working directory',
                       (sorted(set(now) ^ set(had))))
            ctx.expect({q.name for q in target.iterdir()} == {'glompo_manager_log.yml'}, 'files of a requested summary', sorted(target.iterdir()))
        else:
            p.unlink()

    def prepare(m, S, w):
        m._gmon_world = w
        req['m'] = m
        if case['finish'] == 'interrupt':
            w.fail_at[case['comp']] = {'at': {case['at']}, 'exc': KeyboardInterrupt}
        elif case['finish'] == 'crash':
            w.fail_at[case['comp']] = {'at': {case['at']}, 'exc': OddError}
        if case['request'] == 'before':
            request(m, d / 'other', 'before')
        elif case['request'] == 'during':
            def point(m):
                if m.t_start is not None and not req.get('done') and m.f_counter > 3:
                    req['done'] = True
                    old, S.frozen = S.frozen, True
                    try:
                        request(m, d / 'other', 'during')
                        ctx.count('during_run')
                    finally:
                        S.frozen = old
            w.user_points.append(point)
        fs = case['fail_save']
        if fs == 'gone':
            def gone(m):
                if m.t_start is not None and not has_results and not req.get('gone') and wd.exists():
                    req['gone'] = True
                    import shutil
                    for n in list(os.listdir(str(wd))):
                        p = wd / n
                        if p.name not in ('glompo_log.h5', 'chk'):
                            shutil.rmtree(str(p)) if p.is_dir() and not p.is_symlink() else p.unlink()
                    os.rename(str(wd), str(d / 'moved'))
            if case['request'] is None and not case['chk']:
                w.user_points.append(gone)
        elif fs == 'directory':
            def block(m):
                if m.t_start is not None and not req.get('blocked') and not (wd / 'glompo_manager_log.yml').exists() and wd.exists():
                    req['blocked'] = True
                    (wd / 'glompo_manager_log.yml').mkdir()
            if case['request'] is None:
                w.user_points.append(block)
        elif fs == 'plot':
            def bad(*a, **k):
                req['plotfail'] = True
                raise RuntimeError('can not plot')
            m.opt_log.plot_trajectory = bad
        elif fs == 'dump' and case['request'] is None and not case['chk']:
            class Undumpable:
                def __dir__(self):
                    raise RuntimeError('can not be looked at')
            m.x0_generator.undumpable = Undumpable()
            req['undump'] = case['summary'] > 0

    with Plots() as P:
        t = sc.run(case, wd, prepare=prepare, checker=chk, hunter=hunt, generator=gener, selector=sel, bounds=bounds,
                   overwrite_existing=case['overwrite'])
    m = t.m
    v = orc.View(t)
    now = tree(wd) if wd.exists() else {}
    if linked:
        ctx.count('links')
        ctx.expect(tree(d / 'outside') == outside, 'file outside the working directory changed through a link', case['link'])
    ctx.count('sessions')
    if case['foreign']:
        ctx.count('foreign_files', len(case['foreign']))

    # --- ended before the start
    if not v.checks and case['finish'] == 'before' and t.exc is None:
        ctx.expect(drop_other(now, case) == drop_other(before, case), 'directory changed by a run which did not start', sorted(set(now) ^ set(before)))
        ctx.count('end_before_start')
        return
    # --- refused
    if has_results and not case['overwrite']:
        ok = isinstance(t.exc, FileExistsError)
        ctx.expect(ok, 'run with old results in its directory not refused', (case['pre'], case['link'], repr(t.exc)))
        ctx.expect(drop_other(now, case) == drop_other(before, case), 'old results touched by a refused run', sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k)))
        ctx.expect(not v.new and not v.rec, 'refused run started optimizers', len(v.new))
        ctx.count('refused')
        ctx.sig('refused', str(case['pre']), str(case['foreign']), case['summary'])
        return
    blocked = req.get('gone') or req.get('blocked') or req.get('plotfail') or req.get('undump')
    if not orc.run_ok(v, ctx, crash_ok=True):
        return
    if blocked:
        ctx.count('save_failed')
        ctx.expect(t.result is not None, 'no result because the output could not be saved', repr(t.exc))
    ends = case['finish']
    if t.result.stats:
        if v.end == orc.EXHAUSTED:
            ctx.count('end_exhausted')
        elif v.end == 'User Interrupt':
            ctx.count('end_interrupt')
        elif v.end == 'GloMPO Crash':
            ctx.count('end_crash')
            if ends != 'crash':
                ctx.viol('manager crashed', ' '.join(w[-1200:] for w in t.warn if 'Traceback' in w))
                return
        else:
            ctx.count('end_condition')

    # --- foreign files are left alone
    for k, val in before.items():
        if k.split('/')[0] == 'glompo_optimizer_printstreams':
            if not has_results:
                ctx.expect(now.get(k) == val or req.get('gone'), 'print streams removed although nothing was to be replaced', k)
            continue
        if produced(k):
            continue
        if req.get('gone') or (k == 'chk' or k.startswith('chk/') and case['chk']):
            if not req.get('gone') and k == 'chk/old_chk.tar.gz':
                ctx.expect(now.get(k) == val, 'foreign file removed or changed', k)
            continue
        ctx.expect(now.get(k) == val, 'foreign file removed or changed', (k, val, now.get(k)))
    if has_results:
        ctx.count('overwritten')

    # --- exactly the files asked for
    lv = case['summary']
    new = {k for k in now if now[k] != before.get(k) and not k.startswith('chk')}
    left = {k for k in now if produced(k) and k not in new}
    ctx.expect(not left or req.get('gone'), 'old results kept by an overwriting run', left)
    if not blocked:
        want = set()
        if lv >= 1:
            want.add('glompo_manager_log.yml')
        if lv >= 3:
            want.add('glompo_log.h5')
        imgs = {k for k in new if k.startswith('trajectories') and k.endswith('.png')}
        ctx.expect(new - imgs == want, 'files produced', (sorted(new), lv))
        ctx.expect(len(imgs) == (1 if lv >= 2 else 0), 'images produced', (imgs, lv))
        ctx.count('none_asked' if lv == 0 else 'level_%d' % min(lv, 3))
        if imgs:
            images(case, t, v, P, wd, imgs, ctx)
    if lv >= 1 and not req.get('gone') and not req.get('blocked') and not req.get('undump'):
        y = read(wd / 'glompo_manager_log.yml', ctx)
        if y is not None:
            judge(y, case, t, v, m, ctx, bounds, wd)
    elif req.get('undump'):
        p = wd / 'glompo_manager_log.yml'
        ctx.expect(not p.exists() or read(p, ctx) is not None, 'partial summary left behind', '')
    if lv >= 3 and not blocked:
        h5(wd / 'glompo_log.h5', case, t, v, m, ctx)
    if case['request'] in ('after', 'other') and not blocked and not req.get('gone') and lv == 0:
        request(m, d / 'other2' if case['request'] == 'other' else None, 'after')
    if case['chk'] and not blocked and case['after_load']:
        loaded(case, wd, d, t, ctx, bounds)
    if case['twice'] is not None and not blocked:
        twice(case, wd, d, ctx, lv)
    ctx.sig(t.S.sig, len(v.rec), lv, str(case['odd']), str(case['text']))
    ctx.note(level=lv, end=str(v.end)[:40], odd=case['odd'], files=sorted(new)[:6])


def drop_other(tr, case):
    """ Without what checkpointing at the initialisation writes. """
    return {k: v for k, v in tr.items() if not (case['chk'] and (k == 'chk' or k.startswith('chk/')))}


def judge(y, case, t, v, m, ctx, bounds, wd):
    settings(y, case, m, ctx, bounds, wd)
    res = t.result
    started = len(v.life)
    counters(y, len(v.rec), None, m.o_counter, len(m.hunt_victims), m.conv_counter, ctx)
    if v.end not in ('GloMPO Crash', 'User Interrupt'):
        ctx.expect(g(y, 'Counters', 'Optimizers', 'Started') == started, 'summary: optimizers started', (g(y, 'Counters'), started))
        ctx.expect(g(y, 'Counters', 'Optimizers', 'Killed') == len(v.kills), 'summary: optimizers killed', (g(y, 'Counters'), len(v.kills)))
    if res.stats and 'f_evals' in res.stats:
        s = res.stats
        counters(y, s['f_evals'], None, s['opts_started'], s['opts_killed'], s['opts_conv'], ctx)
    solution(y, res.x, res.fx, res.origin, ctx)
    ec = g(y, 'Solution', 'exit cond.')
    end = (res.stats or {}).get('end_cond')
    inj = [e for e in t.W.of('injected')]
    if end == 'GloMPO Crash':
        ctx.expect('Process Crash' in str(ec) and (squeeze(OddError.text) in squeeze(ec) or not inj), 'summary: end condition of a crash', ec)
        ctx.expect('OddError' in str(ec), 'summary: end condition of a crash', ec)
    elif end == 'User Interrupt':
        ctx.expect('User Interrupt' in str(ec), 'summary: end condition of an interrupt', ec)
    else:
        ctx.expect(squeeze(ec) == squeeze(end), 'summary: end condition', (ec, end))
    per = g(y, 'Assignment', 'Time', 'Optimization Periods')
    ok = isinstance(per, list) and len(per) == 1
    if ok:
        try:
            a, b = (datetime.fromisoformat(str(per[0][k])) for k in ('Start', 'End'))
            ok = a <= b and abs((a - datetime.fromtimestamp(m.t_start)).total_seconds()) < 1e-3 and abs((b - datetime.fromtimestamp(m.t_end)).total_seconds()) < 1e-3
        except (KeyError, ValueError):
            ok = False
    ctx.expect(ok, 'summary: periods', per)
    if case['chk']:
        good = {Path(str(n)).name.split('.')[0] for n in (wd / 'chk').glob('chk_*')} if (wd / 'chk').exists() else set()
        lst = g(y, 'Checkpointing', 'Checkpoints')
        ctx.expect(isinstance(lst, list) and {str(n).split('/')[-1].split('.')[0] for n in lst} == good, 'summary: checkpoints', (lst, good))
        ctx.expect(g(y, 'Checkpointing', 'Directory') == str((wd / 'chk').resolve()), 'summary: checkpoint directory', g(y, 'Checkpointing'))
        ctx.count('with_checkpoints')
    else:
        ctx.expect('Checkpointing' not in y, 'summary: checkpoints of a run without any', y.get('Checkpointing'))


def images(case, t, v, P, wd, imgs, ctx):
    name = next(iter(imgs))
    ctx.expect((wd / name).read_bytes()[:8] == b'\x89PNG\r\n\x1a\n', 'trajectory image', name)
    figs = [f for f, n in P.files if os.path.basename(n) == name]
    if not figs:
        ctx.viol('trajectory image', 'not drawn')
        return
    per = {}
    for n, r in enumerate(v.rec, 1):
        per.setdefault(r['opt'], []).append((n, r['fx'], r['x']))
    check_lines(P, figs[-1], per, '_log' in name, '_best' in name, ctx)


def h5(path, case, t, v, m, ctx):
    with tb.open_file(str(path), 'r') as f:
        a = f.root._v_attrs
        ctx.expect(a.n_evals == len(v.rec) and a.n_opts_started == m.o_counter and a.n_opts_killed == len(m.hunt_victims)
                   and a.n_opts_conv == m.conv_counter, 'log file: counters', (a.n_evals, len(v.rec)))
        ctx.expect(str(a.working_dir) == str(Path(path).parent.resolve()), 'log file: working directory', a.working_dir)
        end = (t.result.stats or {}).get('end_cond')
        if end not in ('GloMPO Crash', 'User Interrupt') and end is not None and '\x00' not in end:
            ctx.expect(squeeze(a.exit_reason) == squeeze(end), 'log file: end condition', (a.exit_reason, end))
        ctx.expect(eq([[float(i) for i in b] for b in a.bounds], [[float(i) for i in b] for b in BOUNDS[case['bounds']]]), 'log file: bounds', a.bounds)
        ctx.expect(str(a.task) == 'SimTask', 'log file: task', a.task)
        rows = sum(tab.nrows for tab in f.walk_nodes('/', 'Table'))
        ctx.expect(rows == len(v.rec), 'log file: evaluations', (rows, len(v.rec)))
    ctx.count('h5_checked')


def loaded(case, wd, d, t, ctx, bounds):
    from gmon import sim as simmod
    from gmon.world import World, set_world
    arch = sorted((wd / 'chk').glob('chk_*'))
    if not arch:
        return
    S = simmod.Sim(case['sim_seed'], case['policy'], case['max_steps'], case['eof'], case['opt_burst'])
    w = World(S, t.W.plans)
    w.rec, w.evals = t.W.rec, t.W.evals
    set_world(w)
    from glompo.core.manager import GloMPOManager
    with S, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = GloMPOManager.load_manager(arch[-1])
        m.write_summary_file(d / 'restored')
    y = read(d / 'restored' / 'glompo_manager_log.yml', ctx)
    if y is not None:
        settings(y, case, m, ctx, bounds, wd)
        counters(y, m.f_counter, m.hunt_counter, m.o_counter, len(m.hunt_victims), m.conv_counter, ctx)
        solution(y, m.result.x, m.result.fx, m.result.origin, ctx)
        ctx.count('from_checkpoint')


def twice(case, wd, d, ctx, lv):
    """ Another run in the same directory. """
    c = dict(case)
    c['overwrite'] = case['twice']
    c['chk'] = None
    c['finish'] = 'normal'
    c['seed'] += 1
    before = tree(wd)
    chk, hunt, gener, sel, _ = components(c)
    t = sc.run(c, wd, checker=chk, hunter=hunt, generator=gener, selector=sel, overwrite_existing=c['overwrite'])
    now = tree(wd)
    if not c['overwrite'] and lv > 0:
        ctx.expect(isinstance(t.exc, FileExistsError) and now == before, 'results of the run before not respected', repr(t.exc))
    elif orc.run_ok(orc.View(t), ctx, crash_ok=True) and lv > 0:
        y = read(wd / 'glompo_manager_log.yml', ctx)
        if y is not None:
            ctx.expect(g(y, 'Counters', 'Function Evaluations') == len(t.W.rec), 'summary: evaluations', (g(y, 'Counters'), len(t.W.rec)))
        ctx.expect(len([k for k in now if k.startswith('trajectories') and k not in case['foreign']]) == (1 if lv > 1 else 0), 'images of the run before kept', sorted(now))
    ctx.count('twice')
