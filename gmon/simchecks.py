"""Common driver of the checks which run simulated sessions."""
from gmon import oracle as orc
from gmon import scenario as sc


def run(case, ctx, oracle, crash_ok=False, **kw):
    with sc.scratch() as d:
        t = sc.run(case, d, **kw)
    v = orc.View(t)
    t.v = v
    ctx.count('sessions')
    ctx.count('manager_steps', t.S.steps)
    ctx.count('context_switches', t.S.switches)
    if orc.run_ok(v, ctx, crash_ok):
        oracle(v, ctx)
    if len(v.life) >= 1 and t.S.opt_steps > 3:
        ctx.sig(t.S.sig, len(v.rec), len(v.life))
    ctx.note(optimizers=len(v.life), evaluations=len(v.evals), recorded=len(v.rec), switches=t.S.switches,
             checks=len(v.checked), hunts=len(v.hunts), end=str(v.end)[:60])
    return t


RULE = ('Random but valid configuration (backend, jobs, workers, plans with values incl. ties/NaN/inf, hunting, '
        'sharing, end condition, scheduling policy) executed in a deterministic simulation of processes, pipes, queue '
        'and clock around the real manager; non-trivial: at least one optimizer ran and control was handed to '
        'optimizers more than 3 times; distinct: different interleaving signature, records and optimizers.')

ASSUMPTIONS = ['The simulated processes, pipes, events and shared queue behave like those of the multiprocessing module '
               '(the queue code itself is the real one).',
               'Context switches happen at interactions with pipes, queue, events, process objects and evaluations.']
