"""The HDF5 log file of simulated runs, and its roll back on resume."""
import hashlib
import math
import os
import shutil
import warnings
from pathlib import Path

import tables as tb

from gmon import chain, oracle, scenario as sc, simchecks
from gmon import world as wmod
from gmon.world import RecChecker, SimTask, same
from glompo.common.namedtuples import IterationResult
from glompo.core.optimizerlogger import BaseLogger, FileLogger

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: the iterations, messages and ends seen at the boundary of the log in simulated chains of sessions '
             'are compared with the independently read HDF5 file, after normal ends, kills (bytes on disk at a random moment '
             'after a checkpoint) and resumptions from any checkpoint')
RULE = ('Chain of up to four sessions writing a log file (plain or detailed evaluations); a session ends normally, fails, or is '
        'killed at a random moment after a checkpoint (the bytes on disk at that moment are kept); any of its checkpoints is '
        'resumed with the matching file, with it moved to a new working directory, without a file, or with a file of another '
        'optimization, of a later session or no HDF5 file at all. Non-trivial: a checkpoint was resumed; distinct: different '
        'interleaving signatures.')
ASSUMPTIONS = simchecks.ASSUMPTIONS + ['A killed process leaves the bytes handed to the operating system so far (no power failure).',
                                      'Every session writes its own key in the log file; a checkpoint matches the file only while that '
                                      'key is there (documented rule).']
CASES = {'quick': 200, 'thorough': 5000}
REQUIRED = ['files_read', 'rows', 'messages', 'detailed', 'match', 'moved', 'missing', 'foreign', 'later', 'garbage', 'killed',
            'rolled_back_rows', 'rolled_back_optimizers', 'rolled_back_empty_optimizers', 'rolled_back_messages', 'rolled_back_tables',
            'from_init', 'continued', 'nothing_to_roll_back']


class DetTask(SimTask):
    def detailed_call(self, x):
        return [self(x), x[1] * 0.5, int(x[1]), f'seq {int(x[1])}', [x[0], x[1]]]


class HeadTask(DetTask):
    def headers(self):
        return {'half': tb.Float64Col(pos=0), 'num': tb.Int64Col(pos=1), 'name': tb.StringCol(20, pos=2),
                'pair': tb.Float64Col(shape=(2,), pos=3)}


TASKS = {'plain': SimTask, 'infer': DetTask, 'headers': HeadTask}
COLS = {'plain': [], 'infer': ['result_0', 'result_1', 'result_2', 'result_3'], 'headers': ['half', 'num', 'name', 'pair']}


def gen(i, rng, tier):
    c = sc.base_cfg(rng)
    c['summary'] = 3
    c['hi'] = rng.choice([3, 20, 40])
    c['lo'] = rng.choice([0, 0, 1, 5])
    c['max_opts'] = rng.choice([2, 4, 6, 9])
    c['style'] = rng.choice(['rand', 'desc', 'ties', 'nan', 'zero', 'mix'])
    c['endings'] = rng.choice([[['fin', 1]], [['fin', 3], ['raise', 1], ['silent', 1]]])
    if any(e[0] == 'raise' for e in c['endings']):
        c['lo'] = max(1, c['lo'])
    c['msg'] = rng.choice([0.05, 0.4])
    c['opts'] = [1]
    c['chk'] = {'iter': rng.choice([1, 3, 10, 25]), 'conv': rng.random() < 0.4, 'init': rng.random() < 0.25}
    if rng.random() < 0.2:
        c['chk'] = {'time': rng.choice([0.05, 0.5]), 'conv': True, 'init': rng.random() < 0.5}
    c['fmax'] = rng.choice([None, 10, 30, 60])
    c['rounds'] = None
    c['task'] = rng.choice(['plain', 'plain', 'infer', 'headers'])
    c['detailed'] = c['task'] != 'plain'
    c['sessions'] = rng.choice([2, 2, 3, 4])
    c['picks'] = [rng.random() for _ in range(4)]
    c['seeds'] = [rng.randrange(10 ** 9) for _ in range(4)]
    c['more'] = [rng.choice([None, None, 8, 25]) for _ in range(4)]
    c['modes'] = [rng.choice(['match', 'match', 'match', 'killed', 'killed', 'moved', 'missing', 'foreign', 'later', 'garbage'])
                  for _ in range(4)]
    c['when'] = [rng.random() for _ in range(4)]
    c['overwrite'] = rng.random() < 0.5
    c['overrides'] = {}
    for o in range(1, 10):
        if rng.random() < 0.25:                 # takes long before its first evaluation
            c['overrides'][str(o)] = ([['sleep', rng.choice([0.01, 3.0])], ['msg', f'waiting {o}']] * rng.randint(1, 4) +
                                      [['e', rng.gauss(0, 9)] for _ in range(rng.choice([0, 2, 9]))] + [['fin']])
    return sc.many(c, rng)


def read(path, ctx):
    out = {'attrs': {}, 'opts': {}}
    with tb.open_file(str(path), 'r') as f:
        at = f.root._v_attrs
        out['attrs'] = {k: at[k] for k in at._f_list('user')}
        for g in f.iter_nodes('/', 'Group'):
            d = {'meta': {k: g._v_attrs[k] for k in g._v_attrs._f_list('user')}, 'messages': [str(m) for m in g['messages'][:]],
                 'rows': [], 'table': 'iter_hist' in g}
            if d['table']:
                t = g['iter_hist']
                d['rows'] = [{c: row[c] for c in t.colnames} for row in t.read()] if t.nrows else []
            out['opts'][int(g._v_name.split('_')[1])] = d
    ctx.count('files_read')
    return out


def digest(p):
    return hashlib.sha256(Path(p).read_bytes()).hexdigest()


def num(v):
    return float(v)


def check_rows(f, W, case, ctx, first=0):
    """ The file holds exactly the iterations given to the log, numbered by position (from index `first` on). """
    want = {}
    for i, r in enumerate(W.rec):
        if i >= first:
            want.setdefault(r['opt'], []).append((i + 1, r))
    for o, d in f['opts'].items():
        exp = want.pop(o, [])
        if not ctx.expect(len(exp) == len(d['rows']), 'rows in file',
                          f'optimizer {o}: {len(d["rows"])} rows, {len(exp)} evaluations were recorded; ids '
                          f'{[int(r["call_id"]) for r in d["rows"]][:40]} vs {[n for n, _ in exp][:40]}'):
            continue
        for (n, r), row in zip(exp, d['rows']):
            ok = int(row['call_id']) == n and [num(x) for x in row['x']] == r['x'] and same(num(row['fx']), r['fx'])
            if not ctx.expect(ok, 'row in file differs', f'optimizer {o}: {row} should be {n} {r}'):
                break
            cols = COLS[case['task']]
            if cols:
                s = r['seq']
                got = [num(row[cols[0]]), int(row[cols[1]]), row[cols[2]].decode(), [num(x) for x in row[cols[3]]]]
                ctx.expect(got == [s * 0.5, s, f'seq {s}', [float(o), float(s)]], 'extra columns differ', f'{got} of evaluation {s}')
        ctx.count('rows', len(exp))
    ctx.expect(not want, 'optimizer missing in file', f'{sorted(want)}')


def messages_of(W, o, session=None):
    return [e['text'] for e in W.of('message', session) if e['opt'] == o]


def check_file(path, t, W, case, ctx, first=0, new_file=False):
    f = read(path, ctx)
    m, a = t.m, f['attrs']
    ctx.expect(sorted(f['opts']) == list(range(1, m.o_counter + 1)), 'optimizers in file', f'{sorted(f["opts"])}, started {m.o_counter}')
    check_rows(f, W, case, ctx, first)
    for o, d in f['opts'].items():
        msgs = messages_of(W, o)
        ctx.expect(d['messages'] == msgs, 'messages in file', f'optimizer {o}: {d["messages"]} instead of {msgs}')
        ctx.count('messages', len(msgs))
        sn = W.final['opts'][o]['meta'] if W.final else {}
        for k in ('opt_type', 't_start', 't_stop', 'end_cond'):
            ctx.expect(k in d['meta'], 'metadata missing in file', f'optimizer {o}: {k}')
        for k, v in sn.items():
            ctx.expect(k in d['meta'] and str(d['meta'][k]) == str(v), 'metadata in file', f'{k} of {o}: {d["meta"].get(k)} vs {v}')
        b = oracle.best_of(r['fx'] for r in W.rec if r['opt'] == o)
        if b < math.inf and d['rows']:
            bi = d['meta'].get('best_iter')
            ctx.expect(bi is not None and bi['fx'] == b, 'best of optimizer in file', f'{o}: {bi} instead of {b}')
    n = len(W.rec)
    best = oracle.best_of(r['fx'] for r in W.rec)
    for k, v in [('f_counter', n), ('n_evals', n), ('opts_started', m.o_counter), ('n_opts_started', m.o_counter),
                 ('n_hunts', m.hunt_counter), ('n_opts_killed', len(m.hunt_victims)), ('n_opts_conv', m.conv_counter)]:
        ctx.expect(k in a and a[k] == v, 'counter in file', f'{k}: {a.get(k)} instead of {v}')
    ctx.expect(a['best_iter']['fx'] == best, 'best in file', f'{a["best_iter"]} instead of {best}')
    if t.result is not None and t.result.stats:
        ctx.expect(str(a.get('exit_reason')) == str(t.result.stats['end_cond']), 'end condition in file',
                   f'{a.get("exit_reason")} vs {t.result.stats["end_cond"]}')
    ctx.expect(a.get('checksum') == getattr(m, '_checksum', a.get('checksum')), 'key in file', f'{a.get("checksum")}')
    return f


def count_rollback(path, rs, ctx, W):
    try:
        f = read(path, ctx)
    except Exception:
        raise
    o = rs.end['o']
    rows = sum(1 for d in f['opts'].values() for r in d['rows'] if r['call_id'] > rs.n_rec)
    ctx.count('rolled_back_rows', rows > 0)
    ctx.count('rolled_back_optimizers', any(k > o for k in f['opts']))
    ctx.count('rolled_back_empty_optimizers', rows == 0 and any(k > o for k in f['opts']))
    ctx.count('rolled_back_tables', any(d['rows'] and d['rows'][0]['call_id'] > rs.n_rec for k, d in f['opts'].items() if k <= o))
    ctx.count('rolled_back_messages', any(len(d['messages']) > len([e for e in W.of('message') if e['opt'] == k and e['clock'] <= rs.ev_clock])
                                          for k, d in f['opts'].items() if k <= o))
    ctx.count('nothing_to_roll_back', rows == 0 and not any(k > o for k in f['opts']))


def foreign(path, n):
    log = FileLogger(n_parms=wmod.NDIM, expected_rows=10, build_traj_plot=False)
    log.open(path, 'w', 'some_other_key_here')
    import datetime
    log.add_optimizer(1, 'Other', datetime.datetime(2020, 1, 1))
    log.add_iter_history(1)
    for i in range(n):
        log.put_iteration(IterationResult(1, [1., 2., 3.], float(i), []))
    log.put_message(1, 'mine')
    log.close()


def run(case, ctx):
    keep = BaseLogger.plot_trajectory
    BaseLogger.plot_trajectory = lambda *a, **k: None       # plots are not the subject here
    try:
        with sc.scratch() as d:
            go(case, ctx, d)
    finally:
        BaseLogger.plot_trajectory = keep
        tb.file._open_files.close_all()


def killer(k, case, d, wd, store):
    """ Keeps the bytes on disk at random moments after each checkpoint. """
    import random
    rng = random.Random(int(case['when'][k] * 1e9))
    st = {'n': 0}

    def point(manager):
        f = wd() / 'glompo_log.h5'
        n = len(wmod.WORLD.of('chkpt_end', wmod.WORLD.session))
        if f.exists() and n and (n > st['n'] or rng.random() < 0.2):
            st['n'] = n
            c = d / f'kept_{k}.h5'
            shutil.copyfile(f, c)
            store[k] = (c, wmod.WORLD.sim.clock)
    return point


def go(case, ctx, d):
    wd = d / 'run'
    cur = {'wd': wd}
    kept = {}
    extra = {'overwrite_existing': case['overwrite']}

    init = []

    def prepare(m, S, w):
        init.extend(m.checkpoint_history)
        w.user_points.append(killer(0, case, d, lambda: cur['wd'], kept))

    t = sc.run(case, wd, task=TASKS[case['task']](), prepare=prepare, **extra)
    v = oracle.View(t)
    W = t.W
    sigs = [t.S.sig]
    ctx.count('sessions')
    if case['detailed']:
        ctx.count('detailed')
    log = lambda: cur['wd'] / 'glompo_log.h5'
    first = 0
    if not oracle.run_ok(v, ctx, crash_ok=True):
        return
    if v.end == 'GloMPO Crash' and not oracle.legit_crash_loop(v):
        oracle.run_ok(v, ctx)
        return
    if not v.checked:
        return
    f = check_file(log(), t, W, case, ctx)
    for k in range(case['sessions'] - 1):
        chks = [x for x in chain.checkpoints_of(W, W.session) if x['path'] is not None and x['path'].exists()]
        if k == 0 and init:
            chks.insert(0, {'path': Path(init[0]), 'saved': {}, 'end': {'n_rec': 0, 'o': 0, 'clock': -1, 'hist': set()}})
        if not chks:
            break
        mode = case['modes'][k]
        alive = chks if case['when'][k] < 0.3 else [x for x in chks if x['saved']] or chks
        if mode == 'killed':
            if k not in kept:
                mode = 'match'
            else:
                chks2 = [x for x in chks if x['end']['clock'] <= kept[k][1]]
                if not chks2:
                    mode = 'match'
                else:
                    alive = chks2[-1:] if case['when'][k] < 0.5 else [x for x in chks2 if x['saved']] or chks2
        chk = alive[int(case['picks'][k] * len(alive))]
        rs = chain.Resume(W, chk)
        if not case['overwrite']:
            for p in ('glompo_manager_log.yml',):
                if (cur['wd'] / p).exists():
                    (cur['wd'] / p).unlink()
        load_kw = {}
        if mode == 'killed':
            shutil.copyfile(kept[k][0], log())
        refuse = None
        if mode == 'missing':
            log().unlink()
        elif mode == 'moved':
            nw = d / f'moved{k}'
            nw.mkdir()
            shutil.copyfile(log(), nw / 'glompo_log.h5')
            cur['wd'] = nw
            load_kw['working_dir'] = nw if k % 2 else str(nw)
        elif mode == 'foreign':
            log().unlink()
            foreign(log(), 5 if k % 2 else 500)
            refuse = 'foreign'
        elif mode == 'garbage':
            log().write_bytes(b'this is no log file' * 50)
            refuse = 'garbage'
        later = None
        if mode == 'later':                    # resumed again after the file was continued by a later session
            later, mode = chk, 'match'
        if refuse is None and mode != 'missing':
            count_rollback(log(), rs, ctx, W)
        before = digest(log()) if log().exists() else None
        fmax = math.inf if case['more'][k] is None else rs.n_rec + case['more'][k]
        S, W2, m = chain.load(case, cur['wd'], W, rs, case['seeds'][k], checker=RecChecker(fmax), load_kw=load_kw)
        try:
            W2.user_points.append(killer(k + 1, case, d, lambda: cur['wd'], kept))
            t2 = sc.start(m, S, W2)
            t2.alive_after = []
        finally:
            chain.leave(S)
        t2.c = case
        sigs.append(S.sig)
        if refuse:
            judge_refused(t2, W2, log(), before, refuse, ctx)
            break
        v2 = oracle.View(t2)
        ctx.count('sessions')
        if not oracle.run_ok(v2, ctx, crash_ok=True):
            return
        if v2.end == 'GloMPO Crash' and not oracle.legit_crash_loop(v2):
            oracle.run_ok(v2, ctx)
            return
        if not v2.checked:
            ctx.count('already_converged')
            break
        ctx.count(mode)
        ctx.count('from_init', rs.end['o'] == 0)
        if mode == 'missing':
            ctx.expect(any('not found' in w for w in t2.warn), 'no warning about the missing log file', f'{t2.warn[:4]}')
            first = rs.n_rec
        else:
            ctx.count('continued')
        check_file(log(), t2, W2, case, ctx, first)
        if later is not None and later['path'].exists():
            # the file has been continued by another session: this checkpoint no longer matches it
            if not case['overwrite'] and (cur['wd'] / 'glompo_manager_log.yml').exists():
                (cur['wd'] / 'glompo_manager_log.yml').unlink()
            before = digest(log())
            S, W3, m = chain.load(case, cur['wd'], W, rs, case['seeds'][k] + 1, checker=RecChecker(), load_kw={'working_dir': cur['wd']})
            try:
                t3 = sc.start(m, S, W3)
                t3.alive_after = []
            finally:
                chain.leave(S)
            judge_refused(t3, W3, log(), before, 'later', ctx)
        W = W2
    ctx.sig(*sigs)
    ctx.note(sessions=len(sigs), recorded=len(W.rec), end=str(v.end)[:50])


def judge_refused(t, W, path, before, what, ctx):
    if any('Convergence conditions met before' in w for w in t.warn):
        return
    ctx.count(what)
    ctx.expect(t.exc is not None and (what == 'garbage' or isinstance(t.exc, KeyError)), 'log file of another optimization accepted',
               f'{what}: {t.exc!r} {t.result}')
    ctx.expect(path.exists() and digest(path) == before, 'refused log file was modified', what)
    ctx.expect(not [e for e in W.evals if e['session'] == W.session], 'evaluations although the log file was refused', what)
