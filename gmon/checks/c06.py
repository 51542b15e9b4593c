import math

from gmon import oracle, realrun, scenario, simchecks

LEVEL = 'exploration'
RULE = simchecks.RULE + realrun.RULE + (' Optimizers raise, disappear (as if killed by the operating system), exit with a code, or hang '
                         'at random points, or are slow to obey (or deaf) when they are shut down; in part of the cases a user component of the manager raises or the user '
                         'interrupts.')
HANG = 150
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 700, 'thorough': 12000}
REQUIRED = ['real_processes', 'real_threads', 'fault_raise', 'fault_die', 'fault_exit3', 'fault_hang', 'injected_in_manager', 'tracebacks',
            'forced_terminations', 'failures_recorded', 'crash_loop_stopped', 'forced_after_kill']

EXC = {'RuntimeError': RuntimeError, 'KeyboardInterrupt': KeyboardInterrupt, 'ValueError': ValueError,
       'BrokenPipeError': BrokenPipeError, 'KeyError': KeyError}


def gen(i, rng, tier):
    if i % 21 == 7:
        return realrun.gen(rng, faults=True)
    c = scenario.base_cfg(rng)
    c['lo'] = rng.choice([0, 1, 1, 5])
    c['hi'] = rng.choice([5, 10, 30])
    c['max_opts'] = rng.choice([3, 5, 8, 12])
    c['endings'] = rng.choice([[['fin', 2], ['raise', 1], ['die', 1], ['exit', 1], ['silent', 1]],
                               [['fin', 1], ['die', 1]], [['fin', 3], ['raise', 1]], [['raise', 1]],
                               [['fin', 3], ['exit', 1], ['exit0', 1]]])
    if rng.random() < 0.6:
        c.update(fmax=None, rounds=None)
    if c['proc'] and rng.random() < 0.3:
        c['endings'] = [['fin', 3], ['hang', 1], ['raise', 1]]
        c['force_after'] = rng.choice([30, 60, 300])
        c['slow'] = rng.choice([0, 0.2])
    if i % 12 == 5:                              # optimizers which are slow to obey, or do not, when they are told to stop
        c.update(proc=True, force_after=rng.choice([30, 60]), hunt=rng.choice([0.3, 1.0]), hunt_freq=rng.choice([1, 3, 10]),
                 aggressive=False, max_jobs=rng.choice([2, 3, 6]), opts=[1], endings=[['fin', 3], ['hang', 1]], fmax=None, rounds=None,
                 lo=3, overrides={})
        for o in range(1, c['max_opts'] + 1):
            if rng.random() < 0.6:
                p = []
                for _ in range(rng.choice([3, 10, 20])):
                    p.append(['e', rng.gauss(0, 9)])
                    if rng.random() < 0.5:
                        p.append(['sleep', rng.uniform(0.2, 0.9) * c['force_after']])
                c['overrides'][str(o)] = p + [rng.choice([['fin'], ['fin'], ['hang']])]
        c['inject'] = None
        return c
    if rng.random() < 0.06:
        c.update(lo=0, hi=0, endings=[['raise', 3], ['die', 1]], max_opts=10 ** 6, fmax=None, rounds=None, msg=0)
    c['inject'] = None
    if rng.random() < 0.25:
        comp = rng.choice(['checker', 'selector', 'generator', 'hunter'])
        if comp == 'hunter':
            c['hunt'] = 0.1
            c['hunt_freq'] = rng.choice([1, 3])
        c['inject'] = [comp, rng.choice([1, 1, 2, 3, 5]) + (comp == 'checker'), rng.choice(sorted(EXC))]
    return c


def run(case, ctx):
    if case.get('real'):
        return realrun.run(case, ctx, {'C06'}, scenario.scratch)
    def prepare(m, S, w):
        m.opt_log.build_traj_plot = True
        if case['inject']:
            comp, n, exc = case['inject']
            w.fail_at[comp] = {'at': [n], 'exc': EXC[exc]}

    simchecks.run(case, ctx, oracle.c06, crash_ok=True, prepare=prepare)
