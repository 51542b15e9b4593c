from gmon import oracle, realrun, scenario, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE + realrun.RULE
HANG = 150
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 500, 'thorough': 9000}
REQUIRED = ['real_processes', 'real_threads', 'records', 'exhausted_runs', 'complete_numberings']


def gen(i, rng, tier):
    if i % 21 == 7:
        return realrun.gen(rng)
    c = scenario.base_cfg(rng)
    if rng.random() < 0.5:
        c.update(fmax=None, rounds=None)
    c['plot'] = rng.random() < 0.5
    if rng.random() < 0.12:
        c['summary'] = 3
        c['style'] = rng.choice(['rand', 'desc', 'nan'])
    if rng.random() < 0.2:
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1]]
        c['lo'] = 1
    if rng.random() < 0.3:
        c['chk'] = {'iter': rng.choice([1, 5, 20]), 'keep': 0}
    if rng.random() < 0.2:
        c.update(burst=1.0, hi=200, max_opts=3, policy='rare_burst')
    return c


def run(case, ctx):
    if case.get('real'):
        return realrun.run(case, ctx, {'C01'}, scenario.scratch)
    def prepare(m, S, w):
        if case.get('plot') and not case['summary']:
            m.opt_log.build_traj_plot = True    # keeps the histories of finished optimizers available

    simchecks.run(case, ctx, oracle.c01, prepare=prepare)
