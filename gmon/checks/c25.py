from gmon import oracle, scenario, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 500, 'thorough': 8000}
REQUIRED = ['improvements', 'shared', 'injected', 'not_sharing']


def gen(i, rng, tier):
    c = scenario.base_cfg(rng)
    c['share'] = rng.random() < 0.85
    c['max_jobs'] = rng.choice([2, 3, 4, 6])
    c['style'] = rng.choice(['rand', 'desc', 'desc', 'ties', 'nan', 'mix', 'zero', 'huge'])
    c['hi'] = rng.choice([10, 30, 60])
    c['opts'] = [1]
    if rng.random() < 0.2:
        c['lo'] = 1
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1]]
    return c


def run(case, ctx):
    simchecks.run(case, ctx, oracle.c25)
