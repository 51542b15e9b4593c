from gmon import oracle, scenario, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 500, 'thorough': 9000}
REQUIRED = ['requests', 'started', 'peak_at_limit', 'spawning_stopped']


def gen(i, rng, tier):
    c = scenario.base_cfg(rng)
    c['max_jobs'] = rng.choice([1, 2, 3, 4, 5, 6, 8])
    c['opts'] = [rng.randint(1, min(4, c['max_jobs'])) for _ in range(rng.randint(1, 3))]
    c['max_opts'] = rng.choice([2, 5, 9, 14, 20])
    c['hi'] = rng.choice([3, 10, 30])
    c['detailed'] = False
    if rng.random() < 0.25:
        c['lo'] = 1
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1], ['die', 1], ['exit', 1]]
    return c


def run(case, ctx):
    simchecks.run(case, ctx, oracle.c03)
