from gmon import oracle, realrun, scenario, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE + realrun.RULE
HANG = 150
ASSUMPTIONS = simchecks.ASSUMPTIONS + [
    'Bounded: 40000 manager interactions per session without ending counts as never ending.']
CASES = {'quick': 600, 'thorough': 10000}
REQUIRED = ['real_processes', 'real_threads', 'ended_by_condition', 'ended_by_exhaustion', 'told_to_stop_at_end']


def gen(i, rng, tier):
    if i % 21 == 7:
        return realrun.gen(rng, faults=rng.random() < 0.5)
    c = scenario.base_cfg(rng)
    r = rng.random()
    if r < 0.3:
        c.update(fmax=rng.choice([1, 5, 20, 60]), rounds=None, hi=60, max_opts=12)
    elif r < 0.5:
        c.update(fmax=None, rounds=rng.choice([1, 2, 3, 8, 20]), hi=60, max_opts=12)
    elif r < 0.7:
        c.update(fmax=None, rounds=None)
    if rng.random() < 0.2:
        c.update(burst=1.0, hi=300, policy=rng.choice(['fast_opts', 'rare_burst']), max_opts=4)
    if rng.random() < 0.25:
        c['lo'] = 1
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1], ['exit', 1], ['die', 1]]
    if c['proc'] and rng.random() < 0.15:
        c['lo'] = 1
        c['endings'] = [['fin', 2], ['hang', 1]]
        c['force_after'] = 60
    c['end_timeout'] = rng.choice([None, None, 1, 10]) if c['proc'] else None
    return c


def run(case, ctx):
    if case.get('real'):
        return realrun.run(case, ctx, {'C05'}, scenario.scratch)
    simchecks.run(case, ctx, oracle.c05)
