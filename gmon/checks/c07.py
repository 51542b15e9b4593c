import math
import os

from gmon import chain, oracle, realrun, scenario as sc, sim as simmod, simchecks
from gmon import world as wmod
from gmon.world import RecChecker, SimTask, UnpicklableTask, snapshot

LEVEL = 'exploration'
RULE = ('Chain of up to four sessions: a random simulated optimization takes checkpoints by evaluation count, time, at the '
        'end or on request while it runs, ends (or fails), one of its checkpoints is loaded into a new manager, compared '
        'with the recorded state, resumed, and so on. Non-trivial: at least one checkpoint was loaded and resumed; '
        'distinct: different interleaving signatures.' + realrun.RULE)
HANG = 150
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 320, 'thorough': 6000}
REQUIRED = ['real_processes', 'real_threads', 'real_optimizers_resumed', 'checkpoints', 'loads', 'live_optimizers_resumed', 'resumed_sessions', 'exhausted_runs', 'max_jobs_reduced', 'squeezed', 'squeezed_different_sizes', 'time_used_over_sessions',
            'forced_terminations_possible']


def gen(i, rng, tier):
    if i % 21 == 7:
        return realrun.gen(rng, resume=True)
    c = sc.base_cfg(rng)
    c['hi'] = rng.choice([20, 40, 80])
    c['lo'] = rng.choice([0, 1, 5])
    c['max_opts'] = rng.choice([2, 4, 6, 9])
    c['style'] = rng.choice(['rand', 'desc', 'ties', 'nan', 'zero', 'mix'])
    c['share'] = rng.random() < 0.2
    c['endings'] = rng.choice([[['fin', 1]], [['fin', 3], ['raise', 1], ['silent', 1]]])
    if any(e[0] == 'raise' for e in c['endings']):
        c['lo'] = max(1, c['lo'])
    c['max_jobs'] = rng.choice([1, 2, 3, 4, 6, 8])
    c['opts'] = [rng.randint(1, min(rng.choice([3, 3, 6]), c['max_jobs'])) for _ in range(rng.randint(1, 2))]
    c['chk'] = {'iter': rng.choice([1, 3, 10, 25]), 'conv': rng.random() < 0.4, 'init': rng.random() < 0.15}
    if rng.random() < 0.2:
        c['chk'] = {'time': rng.choice([0.05, 0.5]), 'conv': True}
    c['fmax'] = rng.choice([None, 10, 30, 60])
    c['rounds'] = None
    c['plot'] = rng.random() < 0.4
    c['sessions'] = rng.choice([2, 2, 3, 4])
    c['picks'] = [rng.random() for _ in range(4)]
    c['seeds'] = [rng.randrange(10 ** 9) for _ in range(4)]
    c['more'] = [rng.choice([None, None, 8, 25]) for _ in range(4)]
    c['jobs'] = [rng.choice([None, None, rng.randint(1, 6), round(rng.random(), 3)]) for _ in range(4)]
    c['task'] = rng.choice(['plain', 'plain', 'plain', 'given', 'loader'])
    if i % 8 == 3:                               # optimizers of different sizes squeezed into fewer slots
        c['max_jobs'] = rng.choice([6, 8, 12])
        c['opts'] = rng.choice([[1, 5], [6, 1, 1], [2, 4], [1, 3, 6], [4]])
        c['jobs'] = [round(rng.random() ** 2, 3) for _ in range(4)]
        c['lo'], c['hi'] = 10, 80
    if c['proc'] and rng.random() < 0.5:
        c['force_after'] = 60
        c['slow'] = rng.choice([0, 0.1, 0.5])
    return sc.many(c, rng)


class LoaderTask(UnpicklableTask):
    def checkpoint_save(self, path):
        (path / 'mytask').write_text('ok')


def loader(path):
    assert (path / 'mytask').read_text() == 'ok'
    return LoaderTask()


def compare(m, w, rs, ctx, jobs, used):
    e = rs.end
    ctx.expect(used[0] - 0.05 <= m.t_used <= used[1] + 1e-3, 'time used before the checkpoint', (m.t_used, used))
    ctx.count('time_used_over_sessions', used[2] > 1)
    for name, a, b in [('evaluations', m.f_counter, e['f']), ('optimizers started', m.o_counter, e['o']),
                       ('converged', m.conv_counter, e['conv']), ('kills', sorted(m.hunt_victims), e['kills']),
                       ('hunts', m.hunt_counter, e['hunts']), ('last hunt', m.last_hunt, e['last_hunt']),
                       ('spawning', bool(m.spawning_opts), bool(e['spawning'])), ('best value', m.result.fx, e['fx']),
                       ('best point', list(m.result.x) if m.result.x else m.result.x, e['x']),
                       ('origin', m.result.origin, e['origin'])]:
        if not (a == b or a != a and b != b):
            ctx.viol(f'state after loading differs: {name}', f'{a} instead of {b}')
    st = wmod.settings(m)
    for k, v in e['settings'].items():
        if k in ('checker',) or (k == 'max_jobs' and jobs is not None):
            continue
        ctx.expect(st[k] == v, f'setting after loading differs: {k}', f'{st[k]} instead of {v}')
    ctx.expect(not jobs or m.max_jobs == jobs, 'max_jobs given at loading not used', (m.max_jobs, jobs))
    w.sim.frozen = True
    s = snapshot(m.opt_log, m.o_counter)
    w.sim.frozen = False
    o = e['snap']
    ctx.expect(s['len'] == o['len'] == rs.n_rec, 'log after loading: number of evaluations', (s['len'], o['len'], rs.n_rec))
    ctx.expect({k: str(v) for k, v in s['best'].items()} == {k: str(v) for k, v in o['best'].items()},
               'log after loading: best', (s['best'], o['best']))
    ctx.expect(s['max'] == o['max'] or s['max'] != s['max'], 'log after loading: largest value', (s['max'], o['max']))
    for k in o['opts']:
        a, b = s['opts'][k], o['opts'][k]
        ctx.expect(a['meta'] == b['meta'], 'log after loading: metadata', (k, a['meta'], b['meta']))
        ctx.expect(repr(a['best']) == repr(b['best']), 'log after loading: best of optimizer', (k, a['best'], b['best']))
        for tr in ('call_id', 'x', 'fx'):
            ctx.expect(repr(a[tr]) == repr(b[tr]), 'log after loading: history', (k, tr))
    ctx.count('loads')
    ctx.count('compared_optimizers', len(o['opts']))


def run(case, ctx):
    if case.get('real'):
        return realrun.run(case, ctx, {'C07'}, sc.scratch)
    tasks = {'plain': SimTask, 'given': UnpicklableTask, 'loader': LoaderTask}
    with sc.scratch() as d:
        wd = d / 'run'
        t = sc.run(case, wd, task=tasks[case['task']](),
                   prepare=(lambda m, S, w: setattr(m.opt_log, 'build_traj_plot', True)) if case['plot'] else None)
        v = oracle.View(t)
        ctx.count('sessions')
        if not oracle.run_ok(v, ctx, crash_ok=True):
            return
        if v.end == 'GloMPO Crash' and not oracle.legit_crash_loop(v):
            oracle.run_ok(v, ctx)
            return
        W = t.W
        sigs = [t.S.sig]
        S = t.S
        spent = (0, 0, 0)       # time used up to the start of the session: at least, at most, number of sessions
        for k in range(case['sessions'] - 1):
            chks = chain.checkpoints_of(W, W.session)
            ctx.count('checkpoints', len(chks))
            chks = [x for x in chks if x['path'] is not None]
            if not chks:
                break
            alive = [x for x in chks if x['saved']]
            if alive and case['picks'][k] * 100 % 1 < 0.8:
                chks = alive
            chk = chks[int(case['picks'][k] * len(chks))]
            if not ctx.expect(chk['path'].exists(), 'checkpoint in the history does not exist', chk['path']):
                return
            rs = chain.Resume(W, chk)
            t0 = S.times[min(W.t_start_clock, len(S.times) - 1)]
            spent = (spent[0] + S.times[chk['begin']['clock']] - t0 - 0.05, spent[1] + S.times[chk['end']['clock']] - t0, spent[2] + 1)
            # every evaluation a saved optimizer had made is part of the checkpoint
            for o, n in chk['saved'].items():
                ctx.expect(rs.base.get(o, 0) == n or o in rs.end['kills'],
                           'checkpoint lost evaluations of a saved optimizer',
                           f'optimizer {o} had made {n}, recorded {rs.base.get(o, 0)}')
            live = {o for o, dd in rs.end['snap']['opts'].items() if dd['meta'].get('end_cond') is None}
            ctx.expect(live == set(chk['saved']), 'optimizers of the checkpoint',
                       f'alive according to the log {sorted(live)}, saved {sorted(chk["saved"])}')
            jobs = case['jobs'][k]
            fmax = math.inf if case['more'][k] is None else rs.n_rec + case['more'][k]
            kw = {}
            if case['task'] == 'given':
                kw['task'] = UnpicklableTask()
            elif case['task'] == 'loader':
                kw['task_loader'] = loader
            if isinstance(jobs, float):  # fewer slots than the optimizers of the checkpoint had
                size = {e['opt']: e['workers'] for kk, e in W.ev if kk in ('opt_new', 'opt_begin')}
                total = sum(size.get(o, 1) for o in live)
                jobs = max(1, len(live) + int(jobs * (total - len(live))))
                ctx.count('squeezed', total > jobs)
                ctx.count('squeezed_different_sizes', total > jobs and len({size.get(o, 1) for o in live}) > 1)
            elif jobs is not None:
                jobs = max(jobs, len(live), max(case['opts']))
            if jobs is not None:
                ctx.count('max_jobs_reduced', jobs < case['max_jobs'])
            S, W2, m = chain.load(case, wd, W, rs, case['seeds'][k], max_jobs=jobs, checker=RecChecker(fmax), load_kw=kw)
            try:
                compare(m, W2, rs, ctx, jobs, spent)
                if case['plot']:
                    ctx.expect(bool(m.opt_log.build_traj_plot), 'log after loading: history setting', '')
                if m.converged and fmax == math.inf:
                    ctx.viol('converged after loading', m.convergence_checker.str_with_result())
                W2.expected_live = live
                t2 = sc.start(m, S, W2)
                t2.alive_after = [(a.name, a.sigterm) for a in S.actors.values() if a.alive and a.started]
            finally:
                chain.leave(S)
            t2.c = dict(case, max_jobs=m.max_jobs)
            v2 = oracle.View(t2)
            sigs.append(S.sig)
            ctx.count('sessions')
            ctx.count('resumed_sessions')
            if any('Not enough worker slots' in w for w in t2.warn) and m.max_jobs < max(case['opts']):
                ctx.count('nothing_fits_any_more')
                return
            if not oracle.run_ok(v2, ctx, crash_ok=True):
                return
            if v2.end == 'GloMPO Crash' and not oracle.legit_crash_loop(v2):
                oracle.run_ok(v2, ctx)
                return
            if t2.c['force_after'] > 0:
                ctx.count('forced_terminations_possible')
                t0 = S.times[min(W2.t_start_clock, len(S.times) - 1)]
                for cl, o in v2.terms:
                    if cl < v2.end_clock and S.times[cl] - t0 < t2.c['force_after'] and o in live and o not in v2.kills:
                        ctx.viol('resumed optimizer terminated by force though not silent for that long', (o, S.times[cl] - t0))
            begins = [e for e in W2.of('opt_begin', W2.session) if e['opt'] <= rs.end['o']]
            got = {e['opt'] for e in begins}
            if v2.checked:
                started = {o for o in v2.life if o <= rs.end['o']}
                ctx.expect(started == live, 'optimizers restarted', f'{sorted(started)} instead of {sorted(live)}')
            for b in begins:
                ctx.count('live_optimizers_resumed')
                ctx.expect(b['restart'], 'resumed optimizer does not know it is resumed', b)
                ctx.expect(b['n_eval'] == chk['saved'].get(b['opt']), 'optimizer not resumed in its saved state',
                           (b['opt'], b['n_eval'], chk['saved'].get(b['opt'])))
            ctx.expect(len(begins) == len(got), 'optimizer resumed twice', begins)
            used = sum(b['workers'] for b in begins)
            ctx.expect(used <= m.max_jobs, 'resumed optimizers exceed the job limit', (used, m.max_jobs))
            new = sorted(o for o in v2.new if o > rs.end['o'])
            ctx.expect(new == list(range(rs.end['o'] + 1, rs.end['o'] + 1 + len(new))) and
                       len(new) == len([1 for kk, e in W2.ev if kk == 'opt_new' and e['session'] == W2.session]),
                       'identifiers after resuming', new)
            if v2.checked:
                oracle.c01(v2, ctx, base=rs.base)
                oracle.c02(v2, ctx, rec_before=rs.rec)
                if not rs.end['spawning'] and new:
                    ctx.viol('optimizer started although spawning had been stopped before the checkpoint', new)
            # peak slots
            slots = {b['opt']: b['workers'] for b in begins}
            slots.update({o: e['workers'] for o, e in v2.new.items()})
            for o, (a, b) in v2.life.items():
                tot = sum(slots.get(i, 1) for i in v2.live_at(a))
                if tot > m.max_jobs:
                    # resumed optimizers are started together
                    ctx.viol('more slots in use than allowed after resuming', (tot, m.max_jobs))
                    break
            W = W2
        ctx.sig(*sigs)
        ctx.note(sessions=len(sigs), recorded=len(W.rec), end=str(v.end)[:50])
