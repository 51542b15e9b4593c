from gmon import oracle, scenario, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 600, 'thorough': 10000}
REQUIRED = ['hunts', 'conditions_evaluated', 'kills', 'hunted', 'hunter_had_ended']


def gen(i, rng, tier):
    c = scenario.base_cfg(rng)
    c['max_jobs'] = rng.choice([2, 3, 4, 6, 8])
    c['opts'] = [1]
    c['hunt'] = rng.choice([0.02, 0.1, 0.3, 0.7, 1.0])
    c['hunt_freq'] = rng.choice([1, 2, 3, 7, 10, 25])
    c['hi'] = rng.choice([10, 30, 60, 100])
    c['max_opts'] = rng.choice([3, 5, 8, 12])
    c['style'] = rng.choice(['rand', 'rand', 'desc', 'ties', 'nan', 'zero', 'mix', 'neg'])
    c['aggressive'] = rng.random() < 0.4
    if rng.random() < 0.7:
        c.update(fmax=None, rounds=None)
    if rng.random() < 0.2:
        c['lo'] = 1
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1]]
    return c


def run(case, ctx):
    simchecks.run(case, ctx, oracle.c04)
