"""Built-in stopping conditions against reference predicates: over generated state histories and along simulated runs."""
import copy
import math
import types
from fractions import Fraction

import dill

from gmon import chain, oracle, scenario as sc, sim as simmod, simchecks
from gmon import world as wmod
from glompo.convergence import (KillsAfterConvergence, MaxFuncCalls, MaxKills, MaxOptsStarted, MaxSeconds, NOptConverged,
                                TargetCost)

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: every answer of every built-in stopping condition, over generated sequences of manager '
             'states and along simulated runs with checkpoints and resumption, is compared with an independent predicate; '
             'answers which turn from true to false are reported')
LEVEL_NOTE = ('State sequences and runs sampled from VERIF_SEED; virtual clock; answers within 50 ms of a time limit or '
              'within rounding of the target value are not judged.')
RULE = ('Either 40 states (counters, kills, best value, session and total time) put before each condition, with pickling in '
        'between, or a simulated run (a quarter of them resumed from a checkpoint) ended by a condition under observation. '
        'Non-trivial: the condition turned true after having been false; distinct: condition, parameters and states.')
ASSUMPTIONS = simchecks.ASSUMPTIONS + ['A condition is evaluated in every state (inside lazily evaluated combinations a condition '
                                       'with memory can only see the states it is shown).']
CASES = {'quick': 1200, 'thorough': 24000}
NAMES = ['MaxFuncCalls', 'TargetCost', 'NOptConverged', 'MaxKills', 'KillsAfterConvergence', 'MaxOptsStarted',
         'MaxSeconds:session', 'MaxSeconds:overall']
REQUIRED = ['state:' + n for n in NAMES] + ['run:' + n for n in NAMES] + ['turned', 'resumed', 'resumed:judged', 'refused']


def gen(i, rng, tier):
    name = NAMES[(i + i // len(NAMES)) % len(NAMES)]
    par = {'n': rng.choice([1, 2, 3, 5, 8, 13, 40]), 'm': rng.choice([0, 0, 1, 2, 3]), 'target': rng.choice([0, 1.5, -2, 3, 10]),
           'atol': rng.choice([None, 0, 0.25, 1e-6, 2]), 't': rng.choice([0.5, 2, 10, 60, 3600])}
    if i % 4:
        st = []
        f = o = conv = 0
        kills = []
        fx = None
        t, used = None, rng.choice([0, 0, 1.5, 30, 4000])
        now = 0.0
        for k in range(40):
            f += rng.choice([0, 0, 1, 1, 2, 5])
            o += rng.choice([0, 0, 0, 1, 2])
            if rng.random() < 0.15:
                conv += rng.choice([1, 1, 2])
            if rng.random() < 0.3:
                kills = kills + [len(kills) + 1]
            if rng.random() < 0.3:
                new = rng.choice([math.inf, rng.choice([20, 12, 11, 10, 8, 4, 3.25, 3, 2, 1.75, 1.5, 1.0, 0, -1, -2, -3])])
                fx = new if fx is None or new < fx else fx
            now += rng.choice([0.01, 0.3, 2, 20, 500])
            if t is None and k > 2:
                t = now
            st.append({'f': f, 'o': o, 'conv': conv, 'kills': kills, 'fx': None if fx is None else str(fx), 't': t, 'used': used,
                       'now': now})
        return {'kind': 'states', 'name': name, 'par': par, 'states': st,
                'between': rng.choice([None, None, 'dill', 'deepcopy'])}
    c = sc.base_cfg(rng)
    c.update(kind='run', name=name, par=par, max_opts=rng.choice([3, 6, 10]), hi=rng.choice([10, 40]), lo=1,
             style=rng.choice(['desc', 'rand', 'ties', 'mix']), hunt=rng.choice([0.2, 0.6, 1.0]), hunt_freq=rng.choice([1, 3, 10]))
    if 'MaxSeconds' in name:
        par['t'] = rng.choice([0.05, 0.2, 1, 3])
        c['slow'] = rng.choice([0.1, 0.3])
    if name == 'TargetCost':
        par['target'] = rng.choice([-5, 0, 1, 20])
    if name == 'KillsAfterConvergence':
        par['n'] = rng.choice([1, 2, 3])
    c['resume'] = rng.random() < 0.6
    c['pick'] = rng.random()
    c['seed2'] = rng.randrange(10 ** 9)
    if c['resume']:
        c['chk'] = {'iter': rng.choice([2, 5, 12])}
    return c


def make(name, p):
    if name == 'MaxFuncCalls':
        return MaxFuncCalls(p['n'])
    if name == 'TargetCost':
        return TargetCost(p['target']) if p['atol'] is None else TargetCost(p['target'], p['atol'])
    if name == 'NOptConverged':
        return NOptConverged(p['n'])
    if name == 'MaxKills':
        return MaxKills(p['n'])
    if name == 'KillsAfterConvergence':
        return KillsAfterConvergence(p['m'], p['n'])
    if name == 'MaxOptsStarted':
        return MaxOptsStarted(p['n'])
    if name == 'MaxSeconds:session':
        return MaxSeconds(session_max=p['t'])
    return MaxSeconds(overall_max=p['t'])


class Ref:
    def __init__(self, name, p):
        self.name, self.p, self.at_conv = name, p, None

    def __call__(self, s):
        n, p = self.name, self.p
        if n == 'MaxFuncCalls':
            return s['f'] >= p['n']
        if n == 'MaxOptsStarted':
            return s['o'] >= p['n']
        if n == 'NOptConverged':
            return s['conv'] >= p['n']
        if n == 'MaxKills':
            return s['kills'] >= p['n']
        if n == 'KillsAfterConvergence':
            if self.at_conv is None and s['conv'] >= p['n']:
                self.at_conv = s['kills']
            return self.at_conv is not None and s['kills'] - self.at_conv >= p['m']
        if n == 'TargetCost':
            if s['fx'] is None:
                return False
            fx = float(s['fx'])
            if not math.isfinite(fx):
                return fx < 0
            lim = Fraction(p['target']) + Fraction(1e-6 if p['atol'] is None else p['atol'])
            if fx != lim and abs(Fraction(fx) - lim) < Fraction(1, 10 ** 12):
                return None
            return Fraction(fx) <= lim
        el = 0 if s['t'] is None else s['now'] - s['t']
        if n == 'MaxSeconds:overall':
            el += s['used']
            if el - s.get('span', 0) < p['t'] + 0.05 and el > p['t'] - 0.05:
                return None   # the time spent on the checkpoint itself belongs to either
        if abs(el - p['t']) < 0.05:
            return None
        return el >= p['t']


def states(case, ctx):
    name, p = case['name'], case['par']
    S = simmod.Sim(1)
    t0 = S.now
    cond, ref = make(name, p), Ref(name, p)
    was = False
    with S:
        for k, s in enumerate(case['states']):
            S.now = t0 + s['now']
            fx = None if s['fx'] is None else float(s['fx'])
            man = types.SimpleNamespace(f_counter=s['f'], o_counter=s['o'], conv_counter=s['conv'],
                                        hunt_victims={q: None for q in s['kills']}, t_used=s['used'],
                                        t_start=None if s['t'] is None else t0 + s['t'],
                                        result=types.SimpleNamespace(fx=fx, x=None if fx is None else [1.0]))
            exp = ref(dict(s, kills=len(s['kills'])))
            r = cond(man)
            ctx.count('state:' + name)
            if exp is not None:
                ctx.expect(bool(r) == exp, f'{name.split(":")[0]} decides differently from its documentation', (name, p, k, s, r))
            ctx.expect(cond.last_result is not None and bool(cond.last_result) == bool(r), 'result not recorded', (name, r))
            ctx.expect(bool(r) or not was, f'{name.split(":")[0]} turned false again', (p, k, s))
            if r and not was and k:
                ctx.count('turned')
                ctx.sig(name, repr(p), repr(s))
            was = bool(r)
            if case['between'] == 'dill':
                cond = dill.loads(dill.dumps(cond))
            elif case['between']:
                cond = copy.deepcopy(cond)
    for a, kw in (((), {}), ((), {'session_max': 1, 'overall_max': 2})):
        try:
            MaxSeconds(*a, **kw)
            ctx.viol('nonsense parameters accepted', kw)
        except (AssertionError, ValueError, TypeError):
            ctx.count('refused')


class Watch(wmod.RecChecker):
    """ A built-in condition under observation. """

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def __call__(self, manager):
        w = wmod.WORLD
        super().__call__(manager)           # records the state of the manager
        checked = w.ev.pop()                # but not its answer
        s = {'f': len(w.rec), 'o': len({e['opt'] for k, e in w.ev if k in ('opt_new', 'opt_begin')} | set(getattr(w, 'pre', ()))),
             'conv': manager.conv_counter, 'kills': len(manager.hunt_victims), 'fx': manager.result.fx,
             't': w.t_session, 'used': w.t_used, 'now': w.sim.now, 'span': getattr(w, 'span', 0), 'started': manager.t_start is not None}
        before = (s['f'], manager.o_counter, repr(manager.hunt_victims), manager.conv_counter)
        self.last_result = self.inner(manager)
        after = (len(w.rec), manager.o_counter, repr(manager.hunt_victims), manager.conv_counter)
        w.log('builtin', state=s, res=bool(self.last_result), changed=before != after)
        checked[1]['res'] = bool(self.last_result)
        w.ev.append(checked)
        return self.last_result


def judge(W, name, p, ctx, session, ref, was):
    turned = False
    n = 0
    for e in W.of('builtin', session):
        s = e['state']
        if not s['started']:
            s = dict(s, t=None)
        exp = ref(s)
        ctx.count('run:' + name)
        n += 1
        if e['changed']:
            ctx.viol('evaluating the condition changed the manager', name)
        if exp is not None and exp != e['res']:
            ctx.viol(f'{name.split(":")[0]} decides differently from its documentation', (name, p, s, e['res']))
        if was and not e['res'] and name != 'MaxSeconds:session':
            ctx.viol(f'{name.split(":")[0]} turned false again', (p, s))
        if e['res'] and not was:
            turned = True
        was = e['res']
    return turned, was, n


def run(case, ctx):
    if case['kind'] == 'states':
        return states(case, ctx)
    name, p = case['name'], case['par']
    with sc.scratch() as d:
        def prepare(m, S, w):
            w.t_session, w.t_used = S.now, 0

        t = sc.run(case, d / 'r', checker=Watch(make(name, p)), prepare=prepare)
        v = oracle.View(t)
        ctx.count('sessions')
        if not oracle.run_ok(v, ctx):
            return
        ref = Ref(name, p)
        turned, was, n = judge(t.W, name, p, ctx, t.session, ref, False)
        oracle.c05(v, ctx)
        if turned:
            ctx.count('turned')
            ctx.sig(name, repr(p), t.S.sig)
        if case['resume']:
            W = t.W
            chks = [x for x in chain.checkpoints_of(W, W.session) if x['path'] is not None and x['path'].exists()]
            if not chks:
                return
            chk = chks[int(case['pick'] * len(chks))]
            rs = chain.Resume(W, chk)
            upto = [e for e in W.of('builtin', W.session) if e['clock'] < rs.ev_clock]
            last = upto[-1]['res'] if upto else False
            if last:
                return   # nothing to resume
            t_chk = t.S.times[rs.ev_clock] if rs.ev_clock < len(t.S.times) else None
            S, W2, m = chain.load(case, d / 'r', W, rs, case['seed2'])
            try:
                W2.t_session = S.now
                W2.t_used = t_chk - W.t_session
                W2.span = t_chk - t.S.times[chk['begin']['clock']]
                W2.pre = set(range(1, rs.end['o'] + 1))
                W2.expected_live = set(chk['saved'])
                t2 = sc.start(m, S, W2)
                t2.alive_after = []
            finally:
                chain.leave(S)
            t2.c = case
            ctx.count('resumed')
            if not oracle.run_ok(oracle.View(t2), ctx):
                return
            ref2 = Ref(name, p)   # what the condition knew when the checkpoint was taken
            for e in upto:
                ref2(e['state'] if e['state']['started'] else dict(e['state'], t=None))
            turned, was, n = judge(W2, name, p, ctx, W2.session, ref2, last)
            ctx.count('resumed:judged', n)
        ctx.note(name=name, par=p, end=str(v.end)[:60])
