from gmon import oracle, realrun, scenario, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE + realrun.RULE
HANG = 150
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 500, 'thorough': 9000}
REQUIRED = ['real_processes', 'real_threads', 'best_checks', 'final_statistics', 'no_finite_yet']


def gen(i, rng, tier):
    if i % 25 == 7:
        return realrun.gen(rng)
    c = scenario.base_cfg(rng)
    c['style'] = rng.choice(scenario.STYLES + ['mix', 'nan', 'ties', 'bad', 'zero'])
    c['hi'] = rng.choice([3, 10, 30, 60])
    if rng.random() < 0.2:
        c['lo'] = 1
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1]]
    if rng.random() < 0.5:
        c.update(fmax=None, rounds=None)
    return c


def run(case, ctx):
    if case.get('real'):
        return realrun.run(case, ctx, {'C02'}, scenario.scratch)
    fins = {}

    def judge(v, ctx):
        n = None
        if v.end == oracle.EXHAUSTED and not v.kills:
            n = len([e for e in v.W.of('opt_finish')])
        oracle.c02(v, ctx, finished=n)

    simchecks.run(case, ctx, judge)
