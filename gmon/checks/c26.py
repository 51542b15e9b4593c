"""Detailed evaluations: what the task is asked for, what the optimizer receives and what the log holds."""
import collections
import math
import random
from pathlib import Path

import numpy as np
import tables as tb

from gmon import chain, oracle as orc, scenario as sc, simchecks, world as wmod
from gmon.world import RecChecker, RecSelector, ScriptOpt, SimTask, same

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: every call of either form of the task and everything an optimizer receives is recorded; columns of the '
             'log in memory and in the file are read back and compared row by row with what the task returned for that point')
LEVEL_NOTE = 'Forms of extra values, declarations, calling styles and interleavings sampled from VERIF_SEED.'
RULE = (simchecks.RULE + ' The task returns up to six extra values of 24 kinds (numbers of Python and NumPy, text, bytes, arrays, nested '
        'lists, nothing, other objects) in a tuple, list, array or named tuple; columns declared (with or without positions, under any '
        'name, with or without the function value) or inferred; optimizers call in the plain, the detailed or both forms; log in memory or '
        'file; a part is stopped and resumed from a checkpoint.')
ASSUMPTIONS = simchecks.ASSUMPTIONS + [
    'The extra values of one task always have the same types and shapes (the documentation warns that columns are inferred from the first '
    'return); values fit the declared columns; text is at most 280 bytes in a file.',
    'With detailed logging off, extra values of an optimizer which also makes plain calls are only logged if its first call is detailed.']
CASES = {'quick': 420, 'thorough': 7000}
HANG = 200
REQUIRED = ['on', 'off', 'plain', 'detailed', 'mixed', 'file', 'memory', 'declared', 'declared_no_pos', 'declared_other_name', 'declared_extras_only',
            'inferred', 'refused', 'resumed', 'rows_file', 'rows_memory', 'tuple', 'list', 'array', 'named', 'no_extras', 'text', 'object',
            'numpy_scalar', 'nested', 'new_columns_after_resume']

KINDS = ['float', 'int', 'bool', 'str', 'uni', 'none', 'floats', 'ints', 'bools', 'nested', 'arr32', 'arri8', 'strs', 'unis', 'np32', 'npint', 'npbool',
         'complex', 'bytes', 'dict', 'nan', 'long', 'zerod', 'ragged']


def value(kind, opt, seq, k):
    """ Extra value number `k` of evaluation (opt, seq); the same whenever it is asked for. """
    r = random.Random(opt * 7919 + seq * 104729 + k * 31)
    if kind == 'float':
        return r.gauss(0, 1) * 10.0 ** r.randint(-200, 200)
    if kind == 'int':
        return r.choice([0, -1, 2 ** 63 - 1, -2 ** 63, seq, 17])
    if kind == 'bool':
        return r.random() < 0.5
    if kind == 'str':
        return ''.join(r.choice('abc XYZ,;"%{}') for _ in range(r.randint(0, 12))) + 'e'
    if kind == 'uni':
        return r.choice(['Grüße', '温度', 'x', 'µ=%d' % seq])
    if kind == 'none':
        return None
    if kind == 'floats':
        return [r.random(), -0.0, r.choice([math.inf, math.nan, 1e-300])]
    if kind == 'ints':
        return (seq, opt, -seq)
    if kind == 'bools':
        return [r.random() < 0.5 for _ in range(4)]
    if kind == 'nested':
        return [[seq, 1.5], [opt, r.random()], [0.0, -1.0]]
    if kind == 'arr32':
        return np.array([seq, r.random()], dtype=np.float32)
    if kind == 'arri8':
        return np.array([[r.randint(-128, 127)]], dtype=np.int8)
    if kind == 'strs':
        return ['a' * r.randint(0, 3) + 'z', 'b' * r.randint(1, 9)]
    if kind == 'unis':
        return ['é' * r.randint(1, 5), 'plain']
    if kind == 'np32':
        return np.float32(r.random())
    if kind == 'npint':
        return np.int64(r.randint(-5, 5) * 10 ** 12)
    if kind == 'npbool':
        return np.bool_(r.random() < 0.5)
    if kind == 'complex':
        return complex(seq, r.random())
    if kind == 'bytes':
        return b'by%d' % seq
    if kind == 'dict':
        return {'seq': seq, 'v': [1, 2]}
    if kind == 'nan':
        return r.choice([math.nan, math.inf, -math.inf, 0.5])
    if kind == 'long':
        return 'L%05d' % seq + 'x' * r.choice([10, 400])
    if kind == 'zerod':
        return np.array(r.random())
    if kind == 'ragged':
        return {1, 2, seq}
    raise AssertionError(kind)


FLOATS = ['float', 'nan']
Named = collections.namedtuple('Named', 'fx a b c d e f', defaults=[None] * 6)


def declared_col(kind, pos):
    kw = {} if pos is None else {'pos': pos}
    return {'float': lambda: tb.Float64Col(**kw), 'int': lambda: tb.Int64Col(**kw), 'bool': lambda: tb.BoolCol(**kw),
            'str': lambda: tb.StringCol(40, **kw), 'uni': lambda: tb.StringCol(60, **kw), 'none': lambda: tb.Float32Col(**kw),
            'floats': lambda: tb.Float64Col(shape=3, **kw), 'ints': lambda: tb.Int32Col(shape=(3,), **kw),
            'bools': lambda: tb.BoolCol(shape=4, **kw), 'nested': lambda: tb.Float64Col(shape=(3, 2), **kw),
            'arr32': lambda: tb.Float32Col(shape=2, **kw), 'arri8': lambda: tb.Int8Col(shape=(1, 1), **kw),
            'strs': lambda: tb.StringCol(20, shape=2, **kw), 'unis': lambda: tb.StringCol(20, shape=(2,), **kw),
            'np32': lambda: tb.Float32Col(**kw), 'npint': lambda: tb.Int64Col(**kw), 'npbool': lambda: tb.BoolCol(**kw),
            'complex': lambda: tb.ComplexCol(itemsize=16, **kw), 'bytes': lambda: tb.StringCol(10, dflt=b'None', **kw),
            'dict': lambda: tb.StringCol(100, **kw), 'nan': lambda: tb.Float64Col(dflt=-7.0, **kw), 'long': lambda: tb.StringCol(500, **kw),
            'zerod': lambda: tb.Float64Col(**kw), 'ragged': lambda: tb.StringCol(30, **kw)}[kind]()


NAMES = ['zeta', 'alpha', 'Mid', 'errors', 'b2', 'resids', 'a1']


class DetTask(SimTask):
    kinds = ()
    box = 'tuple'
    decl = None

    def __init__(self, kinds, box, decl):
        self.kinds, self.box, self.decl = list(kinds), box, decl

    def __call__(self, x):
        wmod.WORLD.log('task', opt=int(x[0]), seq=int(x[1]), how='plain')
        return SimTask.__call__(self, x)

    def extras(self, opt, seq):
        return [value(k, opt, seq, n) for n, k in enumerate(self.kinds)]

    def detailed_call(self, x):
        o, s = int(x[0]), int(x[1])
        wmod.WORLD.log('task', opt=o, seq=s, how='detailed')
        out = [SimTask.__call__(self, x)] + self.extras(o, s)
        if self.box == 'tuple':
            return tuple(out)
        if self.box == 'list':
            return out
        if self.box == 'array':
            return np.array(out)
        return Named(*out)[:len(out)] if len(out) != 7 else Named(*out)


class HeadTask(DetTask):
    def names(self):
        return NAMES[:len(self.kinds)]

    def headers(self):
        mode, pos = self.decl
        heads = [(n, k) for n, k in zip(self.names(), self.kinds)]
        if mode == 'fx':
            heads.insert(0, ('fx', 'float'))
        elif mode == 'other':
            heads.insert(0, ('cost', 'float'))
        return {n: declared_col(k, i if pos else None) for i, (n, k) in enumerate(heads)}


class NotImplTask(DetTask):
    def headers(self):
        raise NotImplementedError


class DetOpt(ScriptOpt):
    def __init__(self, *a, style='plain', **kw):
        super().__init__(*a, **kw)
        self.style = style
        wmod.WORLD.log('det_new', opt=self._opt_id, style=style)

    def _eval(self, function, v):
        n = self.n_eval
        how = self.style
        if how == 'mixed':
            how = 'detailed' if random.Random(self._opt_id * 31 + n).random() < 0.5 else 'plain'
        call = function.detailed_call if how == 'detailed' else function

        def f(x):
            r = call(x)
            wmod.WORLD.log('got', opt=self._opt_id, seq=n, how=how, val=r, fx=v)
            return r
        return super()._eval(f, v)


def gen(i, rng, tier):
    c = sc.base_cfg(rng)
    c['detailed'] = rng.random() < 0.6
    c['summary'] = rng.choice([0, 3, 3])
    c['status'] = 600
    c['hi'] = rng.choice([3, 10, 30])
    c['box'] = rng.choice(['tuple', 'tuple', 'list', 'array', 'named'])
    n = rng.choice([0, 1, 2, 3, 4, 6])
    c['kinds'] = [rng.choice(KINDS if c['box'] != 'array' else FLOATS) for _ in range(n)]
    c['decl'] = rng.choice([None, None, 'notimpl', ['fx', True], ['fx', False], ['other', rng.random() < 0.5], ['none', rng.random() < 0.5]])
    c['styles'] = [rng.choice(['plain', 'detailed', 'mixed']) for _ in range(rng.choice([1, 2]))]
    c['share'] = False
    c['bare'] = rng.random() < 0.06
    if c['bare']:
        c['detailed'] = True
        c['styles'] = ['plain']
        c['fmax'] = None
        c['rounds'] = None
    c['resume'] = not c['bare'] and rng.random() < 0.25
    if c['resume']:
        c['chk'] = {'iter': rng.choice([2, 5, 9]), 'keep': -1}
        c['to_file'] = c['summary'] == 0 and rng.random() < 0.5
        c['max_opts'] = max(3, c['max_opts'])
        c['hi'] = rng.choice([10, 30])
        c['rounds'] = None
    return c


def eq(a, b):
    """ Same value (as far as types allow). """
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        x, y = np.array(a), np.array(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'fc' and y.dtype.kind in 'fciub':
            return bool(np.all((x == y) | ((x != x) & (y != y))))
        return bool(np.all(x == y))
    try:
        return bool(a == b) or bool(a != a and b != b)
    except Exception:
        return False


def as_file(v, kind, col):
    """ What the column of a file holds for a value. """
    if v is None:
        return math.nan
    if kind in ('str', 'uni', 'long', 'dict', 'ragged'):
        return str(v).encode('utf-8')[:col.dtype.base.itemsize]
    if kind in ('strs', 'unis'):
        return [s.encode('utf-8')[:col.dtype.base.itemsize] for s in v]
    if kind == 'none':
        return math.nan
    return v


COLTYPE = {'float': 'float64', 'int': 'int64', 'bool': 'bool', 'str': 'string', 'uni': 'string', 'none': 'float64', 'floats': 'float64',
           'ints': 'int64', 'bools': 'bool', 'nested': 'float64', 'arr32': 'float32', 'arri8': 'int8', 'strs': 'string', 'unis': 'string',
           'np32': 'float32', 'npint': 'int64', 'npbool': 'bool', 'complex': 'complex128', 'bytes': 'string', 'dict': 'string', 'nan': 'float64',
           'long': 'string', 'zerod': 'float64', 'ragged': 'string'}
SHAPE = {'floats': (3,), 'ints': (3,), 'bools': (4,), 'nested': (3, 2), 'arr32': (2,), 'arri8': (1, 1), 'strs': (2,), 'unis': (2,)}


def trim(d, kind, dflt):
    if kind in ('strs', 'unis'):
        return [bytes(x) for x in d]
    return d


def gshape(x):
    return np.shape(x)


def names_of(case):
    d = case['decl']
    if isinstance(d, list):
        return NAMES[:len(case['kinds'])]
    return [f'result_{i}' for i in range(len(case['kinds']))]


def detail_made(case, style, opt, seq):
    if case['detailed'] or style == 'detailed':
        return True
    if style == 'mixed':
        return random.Random(opt * 31 + seq).random() < 0.5
    return False


def check_run(case, ctx, t, d, styles, task, mem, resumed=False):
    W = t.W
    # the task is asked once, in the right form
    made = collections.Counter()
    for e in W.of('task', W.session):
        made[e['opt'], e['seq']] += 1
        st = styles.get(e['opt'])
        want = 'detailed' if detail_made(case, st, e['opt'], e['seq']) else 'plain'
        ctx.expect(e['how'] == want, 'wrong form of the task evaluated', (st, case['detailed'], e['how']))
    twice = [k for k, n in made.items() if n > 1]
    ctx.expect(not twice, 'more than one evaluation of the task for one call', (twice[:3], case['detailed'], styles))
    # the optimizer receives what it asked for
    for e in W.of('got', W.session):
        ctx.count(e['how'])
        o, s = e['opt'], e['seq']
        ctx.expect(made[o, s] >= 1, 'value without an evaluation', (o, s))
        if e['how'] == 'plain':
            ctx.expect(isinstance(e['val'], (float, int, np.floating)) and same(float(e['val']), e['fx']), 'plain call does not return the bare value',
                       (e['val'], e['fx']))
        else:
            want = [e['fx']] + task.extras(o, s)
            ok = hasattr(e['val'], '__len__') and len(e['val']) == len(want) and all(eq(a, b) for a, b in zip(want, e['val']))
            ctx.expect(ok, 'detailed call does not return the full sequence', (str(e['val'])[:200], str(want)[:200]))
            ctx.expect(case['box'] != 'array' or isinstance(e['val'], np.ndarray), 'detailed call does not return what the task returned',
                       type(e['val']))
    for e in W.rec:
        o, s = e['opt'], e['seq']
        want = task.extras(o, s) if detail_made(case, styles.get(o), o, s) else []
        if e['session'] == W.session:
            ctx.expect(len(e['extras']) == len(want) and all(eq(a, b) for a, b in zip(want, e['extras'])), 'extra values lost before the log',
                       (str(e['extras'])[:200], str(want)[:200]))
    names = names_of(case)
    cols = {}
    first = {}
    for e in W.rec:
        first.setdefault(e['opt'], e)
    for o, e in first.items():
        has = detail_made(case, styles.get(o), o, e['seq'])
        cols[o] = names if has else []
    by_opt = {}
    for e in W.rec:
        by_opt.setdefault(e['opt'], []).append(e)

    def want_of(o, e, n):
        return task.extras(o, e['seq'])[n] if detail_made(case, styles.get(o), o, e['seq']) else Ellipsis

    # log in memory
    if case['summary'] < 3 and not (resumed and case.get('to_file')):
        ctx.count('memory')
        for o, rows in by_opt.items():
            if o not in mem:
                continue
            for n, (name, kind) in enumerate(zip(cols[o], case['kinds'])):
                got = mem[o].get(name)
                if got is None:
                    ctx.viol('column of extra values missing in memory', (o, name, sorted(mem[o])))
                    continue
                if len(got) != len(rows):
                    ctx.viol('columns of different length in memory', (o, name, len(got), len(rows)))
                    continue
                for g, e in zip(got, rows):
                    w = want_of(o, e, n)
                    ctx.expect(g is None if w is Ellipsis else eq(g, w), 'extra value under the wrong column or evaluation in memory',
                               lambda: (name, kind, str(g)[:80], str(w)[:80]))
                    ctx.count('rows_memory')
        return
    # log file
    f = Path(d) / 'glompo_log.h5'
    if not f.exists():
        ctx.expect(not W.rec, 'no log file', '')
        return
    ctx.count('file')
    with tb.open_file(str(f), 'r') as h:
        for o, rows in by_opt.items():
            if f'/optimizer_{o}/iter_hist' not in h:
                ctx.viol('no table of evaluations', o)
                continue
            tab = h.get_node(f'/optimizer_{o}/iter_hist')
            conv = resumed and case.get('to_file')
            if conv and not any(e['session'] == W.session for e in rows):
                continue
            ctx.expect(list(tab.colnames) == ['call_id', 'x', 'fx'] + cols[o], 'columns of the file', (tab.colnames, cols[o], case['decl']))
            if list(tab.colnames) != ['call_id', 'x', 'fx'] + cols[o]:
                continue
            for name, kind in zip(cols[o], case['kinds']):
                if isinstance(case['decl'], list):
                    dc = declared_col(kind, None)
                    ok = dc.dtype == tab.coldescrs[name].dtype
                else:
                    ok = tab.coltypes[name] == COLTYPE[kind] and tuple(tab.coldescrs[name].shape) == SHAPE.get(kind, ())
                    if COLTYPE[kind] == 'string':
                        ok = ok and tab.coldescrs[name].dtype.base.itemsize == 280
                ctx.expect(ok, 'type of a column', (name, kind, str(tab.coldescrs[name]), case['decl']))
            data = tab.read()
            if len(data) != len(rows):
                ctx.viol('rows of the file', (o, len(data), len(rows)))
                continue
            for g, e in zip(data, rows):
                ctx.expect(int(g['x'][1]) == e['seq'] and same(float(g['fx']), e['fx']), 'row of the file', (o, e['seq'], str(g)[:100]))
                for n, (name, kind) in enumerate(zip(cols[o], case['kinds'])):
                    w = want_of(o, e, n)
                    col = tab.coldescrs[name]
                    if w is Ellipsis:
                        w = np.full(gshape(g[name]), tab.coldflts[name]).tolist() if np.shape(g[name]) else tab.coldflts[name]
                    else:
                        w = as_file(w, kind, col)
                    gv = trim(g[name], kind, None)
                    if kind == 'np32' or (isinstance(w, float) and col.dtype.base == np.float32):
                        w = np.float32(w)
                    ctx.expect(eq(gv, w), 'extra value under the wrong column or evaluation in the file',
                               lambda: (name, kind, str(gv)[:80], str(w)[:80]))
                    ctx.count('rows_file')


def run(case, ctx):
    tb.file._open_files.close_all()          # of a case which failed
    cls = DetTask if case['decl'] is None else NotImplTask if case['decl'] == 'notimpl' else HeadTask
    task = SimTask() if case['bare'] else cls(case['kinds'], case['box'], case['decl'] if isinstance(case['decl'], list) else None)
    if case['decl'] == 'notimpl' or case['decl'] is None:
        ctx.count('inferred')
    elif case['kinds']:
        ctx.count('declared')
        mode, pos = case['decl']
        if not pos:
            ctx.count('declared_no_pos')
        if mode != 'fx':
            ctx.count('declared_other_name' if mode == 'other' else 'declared_extras_only')
    ctx.count('on' if case['detailed'] else 'off')
    ctx.count(case['box'])
    for k in case['kinds']:
        ctx.count({'str': 'text', 'uni': 'text', 'long': 'text', 'dict': 'object', 'ragged': 'object', 'np32': 'numpy_scalar', 'npint': 'numpy_scalar',
                   'npbool': 'numpy_scalar', 'nested': 'nested', 'strs': 'text'}.get(k, 'other_kind'))
    if not case['kinds']:
        ctx.count('no_extras')
    if 'mixed' in case['styles'] and not case['detailed']:
        ctx.count('mixed')
    sel = RecSelector(*[(DetOpt, {'workers': 1, 'style': s}, {}) for s in case['styles']], seed=case['seed'], max_opts=case['max_opts'],
                      p_none=case['p_none'])

    def columns(m, W, mem):
        log = m.opt_log
        inner = log.close

        def close(*a, **k):
            fr, W.sim.frozen = W.sim.frozen, True
            try:
                for o in range(1, m.o_counter + 1):
                    out = {}
                    for name in names_of(case):
                        try:
                            out[name] = list(log.get_history(o, name))
                        except KeyError:
                            pass
                    mem[o] = out
            finally:
                W.sim.frozen = fr
            return inner(*a, **k)
        log.close = close
        log.build_traj_plot = True

    with sc.scratch() as d:
        mem = {}
        t = sc.run(case, d, task=task, selector=sel, prepare=lambda m, S, w: columns(m, w, mem))
        v = orc.View(t)
        if not orc.run_ok(v, ctx, crash_ok=case['bare']):
            return
        if case['bare']:
            ctx.count('refused')
            ctx.expect(not t.W.evals and not t.W.rec and not t.W.of('got'), 'task without a detailed form evaluated', '')
            for o in v.life:
                end = str((t.W.final['opts'].get(o) or {'meta': {}})['meta'].get('end_cond'))
                ctx.expect('rror' in end or 'Crash' in end or 'raceback' in end or 'erminat' in end, 'refusal not recorded', end[:200])
                ctx.expect(any("detailed_call" in e['text'] for e in t.W.of('message') if e['opt'] == o) or o in v.kills or not t.W.of('opt_begin')
                           or "detailed_call" in end or case['proc'], 'reason of the refusal not recorded', end[:200])
            ctx.sig('bare', t.S.sig)
            return
        styles = {e['opt']: e['style'] for e in t.W.of('det_new')}
        check_run(case, ctx, t, d, styles, task, mem)
        if t.S.opt_steps > 3 and t.W.rec:
            ctx.sig(t.S.sig, tuple(case['kinds']), str(case['decl']), case['box'])
        if case['resume']:
            cps = [x for x in chain.checkpoints_of(t.W, 0) if x['path'] is not None and x['path'].exists() and x['saved']]
            if not cps:
                return
            R = chain.Resume(t.W, random.Random(case['seed']).choice(cps))
            kw = {'working_dir': d, 'overwrite_existing': True}
            if case['to_file']:
                kw['summary_files'] = 3
            S, w, m = chain.load(case, d, t.W, R, case['sim_seed'] + 1, load_kw=kw, checker=RecChecker(math.inf))
            mem2 = {}
            try:
                columns(m, w, mem2)
                if m.converged:
                    return
                t2 = sc.start(m, S, w)
                t2.c = case
            finally:
                chain.leave(S)
            if t2.exc is not None:
                ctx.viol('resumed run fails', repr(t2.exc))
                return
            st2 = dict(styles)
            for e in w.of('det_new'):
                st2[e['opt']] = e['style']
            ctx.count('resumed')
            if case['to_file']:
                ctx.count('new_columns_after_resume')
                # rows of before the checkpoint are not in the new file
                pass
            n_all = w.rec
            if case['to_file']:
                w.rec = [e for e in w.rec if e['session'] == w.session]
            check_run(case, ctx, t2, d, st2, task, mem2, resumed=True)
            w.rec = n_all
        ctx.note(kinds=case['kinds'], decl=str(case['decl']), rows=len(t.W.rec))
