"""Combined conditions: lazy boolean logic, reports of what was evaluated, iteration, pretty printing."""
import copy
import pickle
import types

import dill

from glompo.common.helpers import nested_string_formatting
from glompo.convergence import MaxFuncCalls, MaxOptsStarted, TargetCost
from glompo.convergence.basechecker import BaseChecker
from glompo.hunters.basehunter import BaseHunter

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: every invocation of every leaf of generated condition trees is recorded and compared, '
             'together with results, reports, iteration and pretty printing, with an independent lazy evaluator')
LEVEL_NOTE = ('Oracle over recorded executions of the real combination classes; trees (up to 9 levels, hunters and '
              'checkers), answers, failing leaves and pickling in between are sampled from VERIF_SEED.')
RULE = ('A tree of and/or combinations with 2..24 recording leaves, evaluated 1..8 times with scripted answers (booleans, '
        'numpy booleans, occasionally a failing leaf), optionally pickled or copied in between. Non-trivial: at least one '
        'leaf was skipped in an evaluation after having been evaluated in an earlier one; distinct: tree shape and answers.')
ASSUMPTIONS = ['The text of a report is compared with blanks removed; a leaf object used twice in one tree is compared by '
               'result and invocations only (its two positions share one report).']
CASES = {'quick': 6000, 'thorough': 120000}
REQUIRED = ['evaluations', 'skipped', 'stale_candidates', 'failing_leaf', 'depth>=5', 'hunter', 'checker', 'reports',
            'pretty', 'pickled', 'builtin', 'refused']

LOG = []


class Boom(Exception):
    pass


def answer(self, args, kwargs):
    LOG.append((self.tag, args, kwargs))
    a = self.script[self.n % len(self.script)]
    self.n += 1
    if a == 'boom':
        raise Boom(self.tag)
    if a in ('npT', 'npF'):
        import numpy as np
        a = np.bool_(a == 'npT')
    self.last_result = a
    return a


class HLeaf(BaseHunter):
    def __init__(self, tag, script):
        super().__init__()
        self.tag, self.script, self.n = tag, script, 0

    def __call__(self, *args, **kwargs):
        return answer(self, args, kwargs)

    def __str__(self):
        return f'HLeaf({self.tag})'


class CLeaf(BaseChecker):
    def __init__(self, tag, limit=3, names='x y'):
        super().__init__()
        self.tag, self.limit, self.names, self.n = tag, limit, names, 0

    def __call__(self, *args, **kwargs):
        return answer(self, args, kwargs)


class HParam(BaseHunter):
    """ Uses the default textual form: the arguments of the constructor with their values. """

    def __init__(self, tag, calls=10, tol=0.25, unkept=1):
        super().__init__()
        self.tag, self.calls, self.tol, self.n = tag, calls, tol, 0

    def __call__(self, *args, **kwargs):
        return answer(self, args, kwargs)


def gen(i, rng, tier):
    kind = rng.choice(['h', 'c'])
    n = [0]
    target = rng.choice([2, 2, 3, 4, 6, 9, 14, 24])
    ans = ['T', 'F', 'T', 'F', 'npT', 'npF'] + (['boom'] if rng.random() < 0.15 else [])
    p = rng.choice([0.2, 0.5, 0.8])

    def leaf():
        n[0] += 1
        s = [rng.choice(ans) if rng.random() < 0.3 else ('T' if rng.random() < p else 'F') for _ in range(8)]
        return ['leaf', n[0], s, rng.choice([0, 1]), rng.randint(1, 50)]

    def tree(k):
        if k == 1:
            return leaf()
        a = rng.choice([1, k - 1, k // 2, rng.randint(1, k - 1)])
        return [rng.choice('|&'), tree(a), tree(k - a)]

    t = tree(target)
    return {'kind': kind, 'tree': t, 'evals': rng.randint(1, 8), 'shared': rng.random() < 0.1,
            'between': rng.choice([None, None, None, 'dill', 'copy', 'deepcopy']), 'builtin': rng.random() < 0.1,
            'kw': rng.random() < 0.3}


def build(t, kind, leaves, shared):
    if t[0] == 'leaf':
        if shared and leaves and t[1] % 3 == 0:
            return leaves[t[1] % len(leaves)]
        s = [{'T': True, 'F': False}.get(a, a) for a in t[2]]
        if kind == 'h':
            if t[3]:
                o = HParam(f't{t[1]}', t[4])
                o.script = s
            else:
                o = HLeaf(f't{t[1]}', s)
        else:
            o = CLeaf(f't{t[1]}', t[4], ' '.join(['a'] * (t[4] % 4)))
            o.script = s
        leaves.append(o)
        return o
    a, b = build(t[1], kind, leaves, shared), build(t[2], kind, leaves, shared)
    return (a | b) if t[0] == '|' else (a & b)


def name_of(t, kind):
    if kind == 'h':
        return f"HParam(tag=t{t[1]}, calls={t[4]}, tol=0.25, unkept)" if t[3] else f"HLeaf(t{t[1]})"
    return f"CLeaf(tag=t{t[1]}, limit={t[4]}, names={' '.join(['a'] * (t[4] % 4))})"


class Ref:
    """ Independent evaluator. """

    def __init__(self, tree, kind, shared):
        self.tree, self.kind, self.pos, self.shared = tree, kind, {}, shared
        self.objs = []
        self.index = {}
        self._walk(tree)

    def _walk(self, t):
        if t[0] == 'leaf':
            if self.shared and self.objs and t[1] % 3 == 0:
                self.index[t[1]] = self.objs[t[1] % len(self.objs)]
            else:
                self.objs.append(t)
                self.index[t[1]] = t
        else:
            self._walk(t[1])
            self._walk(t[2])

    def leaves(self, t=None):
        t = t or self.tree
        if t[0] == 'leaf':
            return [t]
        return self.leaves(t[1]) + self.leaves(t[2])

    def evaluate(self):
        self.res, self.order = {}, []
        return self._ev(self.tree)

    def _ev(self, t):
        if t[0] == 'leaf':
            u = self.index[t[1]]
            self.order.append(f't{u[1]}')
            a = u[2][self.pos.get(u[1], 0) % len(u[2])]
            self.pos[u[1]] = self.pos.get(u[1], 0) + 1
            if a == 'boom':
                raise Boom(f't{u[1]}')
            v = a in ('T', 'npT')
            self.res[t[1]] = v
            return v
        a = self._ev(t[1])
        if (t[0] == '|') == a:
            return a
        return self._ev(t[2])

    def text(self, t=None, res=None):
        t = t or self.tree
        if t[0] == 'leaf':
            u = self.index[t[1]]
            return name_of(u, self.kind) + ('' if res is None else f' = {res.get(t[1])}')
        return f'[{self.text(t[1], res)} {t[0]} \n{self.text(t[2], res)}]'

    def depths(self, t=None, d=0):
        t = t or self.tree
        if t[0] == 'leaf':
            return [d]
        return self.depths(t[1], d + 1) + self.depths(t[2], d + 1)


def squash(s):
    return ''.join(str(s).split())


def pretty_ok(text, ref, res, ctx):
    out = nested_string_formatting(text)
    src = squash(text)
    if src.startswith('['):
        src = src[1:-1]
    ctx.expect(squash(out) == src, 'pretty printing changed the content', (text, out))
    names = [squash(ref.text(t, res)) for t in ref.leaves()]
    depths = [max(0, d - 1) for d in ref.depths()]
    k = 0
    for line in out.split('\n'):
        s = squash(line)
        if any(c in s for c in '[]') and '(' not in s:
            continue
        if not s or s in '|&':
            continue
        if k >= len(names):
            ctx.viol('pretty printing shows too many conditions', out)
            return
        ctx.expect(s.startswith(names[k]), 'pretty printing lost the order', (out, names[k]))
        ind = len(line) - len(line.lstrip(' '))
        ctx.expect(ind == depths[k], 'pretty printing shows the wrong nesting', (out, names[k], ind, depths[k]))
        k += 1
    ctx.expect(k == len(names), 'pretty printing lost a condition', out)
    ctx.count('pretty')


def builtin(case, ctx):
    """ The same with built-in checkers over a stand-in manager. """
    ctx.count('builtin')
    s = case['tree'][1][1] if case['tree'][0] != 'leaf' else case['tree'][1]
    s = s if isinstance(s, int) else 3
    for f, o, fx in ((0, 0, 9.0), (5, 1, 3.0), (7, 2, 1.0), (3, 4, 0.5), (9, 0, 2.0)):
        man = types.SimpleNamespace(f_counter=f, o_counter=o, result=types.SimpleNamespace(fx=fx))
        a, b, c = MaxFuncCalls(6), MaxOptsStarted(3 + s % 2), TargetCost(1.0)
        tree = (a & b) | c
        for _ in range(2):
            r = tree(man)
            va, vb = f >= 6, o >= 3 + s % 2
            vc = fx <= 1.0 or abs(fx - 1.0) <= 1e-6
            ctx.expect(bool(r) == ((va and vb) or vc), 'wrong result', (f, o, fx, r))
            got = (a.last_result, b.last_result, c.last_result)
            exp = (va, vb if va else None, None if (va and vb) else vc)
            ctx.expect(tuple(None if g is None else bool(g) for g in got) == exp, 'stale or missing result', (got, exp))


def run(case, ctx):
    kind, tree, shared = case['kind'], case['tree'], case['shared']
    leaves = []
    LOG.clear()
    cond = build(tree, kind, leaves, shared)
    ref = Ref(tree, kind, shared)
    ctx.count('hunter' if kind == 'h' else 'checker')
    depth = max(ref.depths())
    if depth >= 5:
        ctx.count('depth>=5')
    if case['builtin'] and tree[0] != 'leaf':
        builtin(case, ctx)
    base = BaseHunter if kind == 'h' else BaseChecker
    ctx.expect(isinstance(cond, base), 'combination is not a condition', type(cond))
    before = set()
    stale = False
    everseen = []
    for k in range(case['evals']):
        LOG.clear()
        args = (object(), k + 1) if kind == 'h' else (object(),)
        kw = {'victim_opt_id': 7} if case['kw'] and kind == 'h' else {}
        try:
            exp = ref.evaluate()
        except Boom:
            exp = Boom
        try:
            got = cond(*args, **kw)
        except Boom:
            got = Boom
            ctx.count('failing_leaf')
        ctx.count('evaluations')
        if exp is Boom or got is Boom:
            ctx.expect(exp is got, 'failure of a condition lost or wrong', (exp, got))
        else:
            ctx.expect(bool(got) == exp, 'wrong boolean result', (k, squash(ref.text(res=ref.res)), got, exp))
            ctx.expect(cond.last_result is not None and bool(cond.last_result) == exp, 'last result',
                       (cond.last_result, exp))
        ctx.expect([x[0] for x in LOG] == ref.order, 'conditions evaluated in another order, too often or not lazily',
                   ([x[0] for x in LOG], ref.order, squash(ref.text())))
        ctx.expect(all(len(x[1]) == len(args) and all(p is q for p, q in zip(x[1], args)) and x[2] == kw for x in LOG),
                   'arguments', k)
        skipped = {t[1] for t in ref.leaves()} - set(ref.res)
        ctx.count('skipped', len(skipped))
        if skipped & before:
            ctx.count('stale_candidates', len(skipped & before))
            stale = True
        before |= set(ref.res)
        everseen.append(tuple(sorted(ref.res.items())))
        if not shared:
            text = cond.str_with_result()
            if exp is not Boom:
                ctx.expect(squash(text) == squash(ref.text(res=ref.res)), 'report does not show this evaluation',
                           (text, ref.text(res=ref.res)))
                ctx.count('reports')
                pretty_ok(text, ref, ref.res, ctx)
                for o, t in zip(leaves, ref.objs):
                    r = ref.res.get(t[1])
                    ctx.expect((o.last_result is None) == (r is None) and bool(o.last_result) == bool(r),
                               'stale or missing result', (t[1], o.last_result, r))
            ctx.expect([id(o) for o in cond] == [id(o) for o in leaves], 'iteration does not give the leaves in order', k)
        if k == 0:
            ctx.expect(squash(str(cond)) == squash(ref.text()), 'textual form', (str(cond), ref.text()))
            if not shared:
                pretty_ok(str(cond), ref, None, ctx)
        if case['between'] and not shared:
            ctx.count('pickled')
            new = {'dill': lambda c: dill.loads(dill.dumps(c)), 'copy': copy.copy,
                   'deepcopy': copy.deepcopy}[case['between']](cond)
            ctx.expect(squash(new.str_with_result()) == squash(cond.str_with_result()), 'copy differs', '')
            cond = new
            leaves = list(cond)
    if stale:
        ctx.sig(squash(ref.text()), tuple(everseen))
    for bad in (5, None, 'x'):
        for op in ('__or__', '__and__'):
            try:
                r = getattr(leaves[0], op)(bad)
                if r is not NotImplemented:
                    ctx.viol('nonsense combination accepted', (op, bad))
            except TypeError:
                ctx.count('refused')
    ctx.note(tree=squash(ref.text())[:200], evaluations=[list(map(list, e)) for e in everseen][:3])
