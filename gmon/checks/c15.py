"""Selectors against reference models: over generated request sequences and inside simulated optimizations."""
import copy
import random
import types

import dill

from gmon import oracle, scenario as sc, simchecks
from gmon import world as wmod
from glompo.opt_selectors import ChainSelector, CycleSelector
from glompo.opt_selectors.baseselector import BaseSelector
from glompo.opt_selectors.spawncontrol import IterSpawnStop, NOptimizersSpawnStop
from glompo.opt_selectors.random import RandomSelector
from glompo.optimizers.baseoptimizer import BaseOptimizer

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: every answer of the built-in selectors, over generated sequences of requests (free slots, '
             'evaluation and optimizer counts) and inside simulated optimizations, is compared with a reference model; the '
             'options are compared with their initial content after every request')
LEVEL_NOTE = 'Request sequences, options and simulated runs sampled from VERIF_SEED; the random selector is judged by membership and coverage.'
RULE = ('A selector with 1..5 options (1..4 workers, init and call settings, worker count omitted, options repeated), spawn '
        'control and thresholds, asked 60 times with growing counters and varying free slots, in part pickled in between; one '
        'in five inside a simulated optimization. Non-trivial: the selector changed option, refused for lack of slots or '
        'stopped; distinct: options and sequence.')
ASSUMPTIONS = ['Thresholds of the chain are in increasing order.']
CASES = {'quick': 2500, 'thorough': 50000}
REQUIRED = ['cycle', 'chain', 'random', 'refused_slots', 'stopped', 'chain_stopped', 'stages_skipped', 'coverage', 'malformed',
            'sessions', 'run:chain', 'run:cycle', 'run:random', 'spawn:iter', 'spawn:opts', 'pickled', 'defaulted']


class OptA(BaseOptimizer):
    def minimize(self, *a, **k):
        pass

    def callstop(self, *a):
        pass


class OptB(OptA):
    pass


class OptC(OptA):
    pass


CLS = [OptA, OptB, OptC]


def gen(i, rng, tier):
    kind = ['cycle', 'chain', 'random'][i % 3]
    n = rng.randint(1, 5)
    opts = []
    for k in range(n):
        form = rng.choice(['class', 'tuple', 'tuple', 'nones', 'noworkers'])
        opts.append({'cls': rng.randrange(3), 'form': form, 'workers': rng.choice([1, 1, 1, 2, 3, 4]), 'a': rng.randint(0, 9),
                     'backend': rng.choice([None, None, 'processes', 'threads'])})
    th = sorted(rng.sample(range(0, 200), n - 1 + (rng.random() < 0.5)))
    spawn = rng.choice([None, None, ['iter', rng.choice([0, 1, 20, 100])], ['opts', rng.choice([0, 1, 5, 20])]])
    d = {'kind': kind, 'opts': opts, 'th': th, 'spawn': spawn, 'between': rng.choice([None, None, None, 'dill'])}
    if i % 5 == 4:
        c = sc.base_cfg(rng)
        c['max_jobs'] = rng.choice([1, 2, 4, 6])
        c['fmax'] = rng.choice([None, None, 80])
        c['rounds'] = None
        c['hi'] = rng.choice([3, 12])
        c['lo'] = 1
        m = rng.randint(1, 4)
        c['chain_opts'] = [rng.randint(1, min(3, c['max_jobs'])) for _ in range(m)]
        c['th2'] = sorted(rng.sample(range(1, 60), m - 1 + (rng.random() < 0.5)))
        c['spawn2'] = rng.choice([['iter', rng.choice([1, 30])], ['opts', rng.choice([1, 4, 8])]])
        if kind == 'chain' and len(c['th2']) == m and rng.random() < 0.6:
            c['spawn2'] = ['opts', 60]
        d['run'] = c
        return d
    req = []
    f = o = 0
    for _ in range(60):
        f += rng.choice([0, 0, 1, 2, 5, 15, 60 if rng.random() < 0.2 else 0])
        o += rng.choice([0, 0, 1])
        req.append([f, o, rng.choice([0, 1, 1, 1, 2, 3, 4, 6])])
    d['req'] = req
    return d


def options(case):
    out, exp = [], []
    for o in case['opts']:
        c = CLS[o['cls']]
        init = {'workers': o['workers'], 'a': o['a'], 'nested': {'l': [o['a']]}}
        if o['backend']:
            init['backend'] = o['backend']
        call = {'b': [o['a']]}
        if o['form'] == 'class':
            out.append(c)
            exp.append((c, {'workers': 1}, {}))
        elif o['form'] == 'nones':
            out.append((c, None, None))
            exp.append((c, {'workers': 1}, {}))
        elif o['form'] == 'noworkers':
            out.append((c, {'a': o['a']}, None))
            exp.append((c, {'a': o['a'], 'workers': 1}, {}))
        else:
            out.append((c, init, call))
            exp.append(copy.deepcopy((c, init, call)))
    return out, exp


def spawn_ctl(s):
    return None if s is None else IterSpawnStop(s[1]) if s[0] == 'iter' else NOptimizersSpawnStop(s[1])


def make(kind, opts, th, spawn):
    sp = spawn_ctl(spawn)
    if kind == 'chain':
        return ChainSelector(*opts, fcall_thresholds=list(th), allow_spawn=sp)
    return (CycleSelector if kind == 'cycle' else RandomSelector)(*opts, allow_spawn=sp)


class Ref:
    def __init__(self, kind, exp, th, spawn):
        self.kind, self.exp, self.th, self.spawn = kind, exp, th, spawn
        self.next = 0

    def __call__(self, f, o, slots):
        """ Set of permitted answers, as indices (None / False for the special answers). """
        if self.spawn:
            lim = self.spawn[1]
            if (f if self.spawn[0] == 'iter' else o) >= lim:
                return False
        if self.kind == 'cycle':
            k = self.next
            if self.exp[k][1]['workers'] > slots:
                return None
            self.next = (k + 1) % len(self.exp)
            return [k]
        if self.kind == 'chain':
            k = sum(1 for t in self.th if f >= t)
            if k == len(self.exp):
                return False
            return None if self.exp[k][1]['workers'] > slots else [k]
        fit = [k for k, e in enumerate(self.exp) if e[1]['workers'] <= slots]
        return fit or None


def agrees(ans, ref, exp):
    if ref is False or ref is None:
        return ans is ref
    return isinstance(ans, tuple) and len(ans) == 3 and any(ans == exp[k] for k in ref)


def requests(case, ctx):
    opts, exp = options(case)
    kind = case['kind']
    sel = make(kind, opts, case['th'], case['spawn'])
    ref = Ref(kind, exp, case['th'], case['spawn'])
    ctx.count('defaulted', sum(o['form'] != 'tuple' for o in case['opts']))
    answers = []
    prev_stage = None
    for f, o, slots in case['req']:
        man = types.SimpleNamespace(f_counter=f, o_counter=o)
        r = ref(f, o, slots)
        a = sel.select_optimizer(man, None, slots)
        ctx.count(kind)
        if case['spawn']:
            ctx.count('spawn:' + case['spawn'][0])
        ctx.expect(agrees(a, r, exp), f'{kind} selector answers differently from its documentation',
                   ((f, o, slots), a, r, exp, case['th'], case['spawn']))
        if isinstance(a, tuple):
            ctx.expect(a[1]['workers'] <= slots, 'offered optimizer does not fit', (a, slots))
        ctx.expect(len(sel.avail_opts) == len(exp) and all(p == q for p, q in zip(sel.avail_opts, exp)),
                   'options changed', (sel.avail_opts, exp))
        if a is None:
            ctx.count('refused_slots')
        if a is False:
            ctx.count('stopped')
            if not case['spawn']:
                ctx.count('chain_stopped')
        if kind == 'chain':
            st = sum(1 for t in case['th'] if f >= t)
            if prev_stage is not None and st > prev_stage + 1:
                ctx.count('stages_skipped')
            prev_stage = st
        answers.append(str(r))
        if case['between']:
            ctx.count('pickled')
            sel = dill.loads(dill.dumps(sel))
    if len(set(answers)) > 1:
        ctx.sig(kind, repr(case['opts']), repr(case['th']), repr(answers))
    for c in CLS:
        ctx.expect((c in sel) == any(e[0] is c for e in exp), 'membership', c)
    if kind == 'random':
        sel = make('random', opts, [], None)
        for slots in (1, 2, 4):
            fit = [k for k, e in enumerate(exp) if e[1]['workers'] <= slots]
            seen = set()
            N = 60 * max(1, len(fit))
            man = types.SimpleNamespace(f_counter=0, o_counter=0)
            for _ in range(N):
                a = sel.select_optimizer(man, None, slots)
                if a is not None:
                    seen.add(id(a[1]))
            ids = {id(sel.avail_opts[k][1]) for k in fit}
            ctx.expect(seen == ids, 'options which fit but are never chosen, or the reverse', (slots, len(seen), len(ids)))
            ctx.count('coverage')
    bad = [(5,), ('x',), (dict,), ((OptA, None),), ((OptA, 5, None),), ((OptA, None, 5),), ((int, None, None),), (OptA(),),
           ((OptA, None, None, None),), (None,), (OptA, (OptB, [1], None))]
    b = bad[(case['req'][0][2] * 7 + len(case['opts']) + case['req'][9][0]) % len(bad)]
    try:
        CycleSelector(*b)
        ctx.viol('malformed option accepted', b)
    except (ValueError, TypeError):
        ctx.count('malformed')
    if kind == 'chain':
        for th in ([0] * (len(exp) + 1), [0] * (len(exp) - 2) if len(exp) > 1 else [1, 2, 3]):
            try:
                ChainSelector(*opts, fcall_thresholds=th)
                ctx.viol('wrong number of thresholds accepted', th)
            except (AssertionError, ValueError):
                ctx.count('malformed')


class Watch(BaseSelector):
    """ A built-in selector under observation; recorded like the selectors of the harness. """

    def __init__(self, inner):
        self.inner = inner
        self.avail_opts = inner.avail_opts
        self.allow_spawn = inner.allow_spawn
        self.logger = inner.logger

    def select_optimizer(self, manager, log, slots_available):
        w = wmod.WORLD
        e = w.log('select', slots=slots_available, ans=None, f=manager.f_counter, o=manager.o_counter,
                  live=[a.name for a in w.sim.actors.values() if a.alive])
        a = self.inner.select_optimizer(manager, log, slots_available)
        e['ans'] = a if not isinstance(a, tuple) else (a[0].__name__, dict(a[1]), dict(a[2]))
        return a


def session(case, ctx):
    c = case['run']
    kind = case['kind']
    opts = [(wmod.ScriptOpt, {'workers': w, 'tag': i, **({'backend': 'threads'} if i % 2 else {})}, {'mark': i})
            for i, w in enumerate(c['chain_opts'])]
    exp = copy.deepcopy(opts)
    random.seed(c['seed'])
    inner = make(kind, opts, c['th2'], c['spawn2'])

    def judge(v, cx):
        sels = v.W.of('select')
        ref = Ref(kind, exp, c['th2'], c['spawn2'])
        for s in sels:
            r = ref(s['f'], s['o'], s['slots'])
            a = s['ans']
            full = a if not isinstance(a, tuple) else (wmod.ScriptOpt, a[1], a[2])
            cx.expect(agrees(full, r, exp), f'{kind} selector answers differently from its documentation', (s, r, c['th2'], c['spawn2']))
            cx.count('run:' + kind)
        cx.expect(inner.avail_opts == exp, 'options changed by the optimization', (inner.avail_opts, exp))
        oracle.c03(v, cx)
        oracle.c05(v, cx)
    simchecks.run(c, ctx, judge, selector=Watch(inner))


def run(case, ctx):
    if 'run' in case:
        session(case, ctx)
    else:
        requests(case, ctx)
        ctx.note(kind=case['kind'], options=len(case['opts']), th=case['th'], spawn=case['spawn'])
