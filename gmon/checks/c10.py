import math

from gmon import oracle, scenario as sc, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE + (' Checkpoints are taken by evaluation count, by time, at the start or the end; in part of the cases '
                         'optimizers end, crash, disappear or are killed around the checkpoint.')
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 420, 'thorough': 8000}
REQUIRED = ['checkpoints', 'completed', 'optimizers_paused', 'carried_on', 'at_end', 'at_init']


def gen(i, rng, tier):
    c = sc.base_cfg(rng)
    c['hi'] = rng.choice([20, 40, 80])
    c['lo'] = rng.choice([0, 1, 5])
    c['max_opts'] = rng.choice([2, 4, 6, 9])
    c['max_jobs'] = rng.choice([1, 2, 3, 4, 6])
    c['opts'] = [1]
    c['status'] = 600
    c['rounds'] = None
    c['fmax'] = rng.choice([None, None, 10, 60])
    r = rng.random()
    if r < 0.5:
        c['chk'] = {'iter': rng.choice([1, 3, 10, 25])}
    elif r < 0.85:
        c['chk'] = {'time': rng.choice([0.05, 0.2, 1.0])}
    else:
        c['chk'] = {'time': rng.choice([0.05, 0.2, 1.0]), 'iter': rng.choice([3, 10, 25])}
    c['chk']['conv'] = rng.random() < 0.3
    c['chk']['init'] = rng.random() < 0.1
    if rng.random() < 0.35:
        c['lo'] = max(1, c['lo'])
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1], ['die', 1], ['exit', 1]]
    return sc.many(c, rng)


def run(case, ctx):
    def prepare(m, S, w):
        m.opt_log.build_traj_plot = True
        h = {str(x) for x in m.checkpoint_history}
        if case['chk']['init']:
            ctx.count('at_init')
            ctx.expect(len(h) == 1, 'no checkpoint at the start', h)
        else:
            ctx.expect(not h, 'checkpoint at the start not asked for', h)

    def judge(v, ctx):
        if v.end == 'GloMPO Crash' and not oracle.legit_crash_loop(v):
            oracle.run_ok(v, ctx)
            return
        faulty = any(e[0] in ('die', 'exit', 'raise') for e in case['endings'])
        oracle.c10(v, ctx, faulty)
        oracle.c01(v, ctx)
        oracle.c04(v, ctx)
        if v.end != 'GloMPO Crash':
            oracle.c05(v, ctx)

    simchecks.run(case, ctx, judge, crash_ok=True, prepare=prepare)
