"""The evaluation log against a sequential record of the operations made on it."""
import datetime
import math
import os
import random
import shutil
import sys
import warnings
from pathlib import Path

import numpy as np
import tables as tb

from gmon import scenario as sc
from glompo.common.helpers import infer_headers
from glompo.common.namedtuples import IterationResult
from glompo.core.optimizerlogger import BaseLogger, FileLogger

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: generated operation histories on the real logs, every query answer compared online with a '
             'sequential reference record; the HDF5 file is read independently after closing')
LEVEL_NOTE = 'Histories sampled from VERIF_SEED.'
RULE = ('Histories of 5..150 operations over 1..6 optimizers: registering, starting a table (with and without extra columns of '
        'several types), iterations (values incl. ties, NaN, infinities, integers), metadata, messages, clearing (one or all, '
        'repeatedly), flushing, writes forced by size, saving and reloading, closing; in-memory log and file log, with and without '
        'held trajectories. After every few operations all queries are compared. Non-trivial: at least 3 iterations recorded; '
        'distinct: sequence of operations. One history in a hundred holds more than 65 536 iterations.')
ASSUMPTIONS = ['An optimizer whose history has been cleared delivers no more iterations (the manager clears after the end message).',
               'The file log is flushed before it is saved, as the manager does.',
               'Clearing the in-memory log releases the histories: their columns and lengths are then empty by design.']
CASES = {'quick': 500, 'thorough': 20000}
REQUIRED = ['base', 'file', 'traj', 'iterations', 'cleared', 'cleared_all', 'flushed', 'reloaded', 'files_read', 'queries', 'extras',
            'size_flush', 'nan', 'ties', 'late_message', 'late_metadata', 'clear_twice', 'no_history', 'bursts']

VALUES = ['normal', 'ties', 'nasty', 'ints', 'up', 'down']
EXTRAS = [None, None, 'float', 'mixed', 'arrays']


def gen(i, rng, tier):
    n = rng.randint(1, 6)
    ops = []
    for _ in range(rng.randint(5, 150)):
        ops.append([rng.choices(['add', 'iter', 'iters', 'meta', 'msg', 'clear', 'clear_all', 'flush', 'flush_all', 'reload', 'query'],
                                [8, 40, 5, 8, 6, 3, 0.7, 4, 2, 2, 8])[0], rng.randint(1, n), rng.randrange(10 ** 6)])
    if i % 100 == 37:                                  # more evaluations than fit in 16 bits
        ops = [o for o in ops[:40] if o[0] not in ('query', 'clear_all', 'reload')]
        ops.insert(rng.randint(0, len(ops)), ['burst', rng.randint(1, n), rng.randrange(10 ** 6)])
        return {'kind': 'file' if i % 200 == 37 else 'base', 'traj': True, 'n': n, 'ops': ops, 'values': rng.choice(VALUES),
                'extras': None, 'size_flush': False, 'np': rng.randint(1, 2), 'seed': rng.randrange(10 ** 9), 'close': True}
    return {'kind': rng.choice(['base', 'file', 'file']), 'traj': rng.random() < 0.3, 'n': n, 'ops': ops,
            'values': rng.choice(VALUES), 'extras': rng.choice(EXTRAS), 'size_flush': rng.random() < 0.3,
            'np': rng.randint(1, 4), 'seed': rng.randrange(10 ** 9), 'close': True}


def same(a, b):
    if isinstance(a, bytes):
        a = a.decode()
    if isinstance(b, bytes):
        b = b.decode()
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    if a is None or b is None:
        return a is None and b is None or (a is None and b != b) or (b is None and a != a)
    if isinstance(a, (datetime.datetime, dict)) or isinstance(b, (datetime.datetime, dict)):
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def same_col(got, ref):
    if len(ref) > 2000:
        got, ref = np.asarray(got), np.asarray(ref)
        return got.shape == ref.shape and bool(np.all((got == ref) | ((got != got) & (ref != ref))))
    got = list(got)
    return len(got) == len(ref) and all(same(x, y) for x, y in zip(got, ref))


class Ref:
    """ The sequential record. """
    def __init__(self):
        self.count = 0
        self.opts = {}
        self.best = None
        self.top = -math.inf

    def add(self, o, typ, t):
        self.opts[o] = {'meta': {'opt_id': o, 'opt_type': typ, 't_start': t}, 'msgs': [], 'rows': [], 'table': False,
                        'cleared': False, 'best': None}

    def put(self, o, x, fx, extras):
        self.count += 1
        r = self.opts[o]
        row = (self.count, list(x), fx, list(extras))
        r['rows'].append(row)
        if fx < (r['best'][2] if r['best'] else math.inf):
            r['best'] = row
        if fx < (self.best[1][2] if self.best else math.inf):
            self.best = (o, row)
        if math.isfinite(fx) and fx > self.top:
            self.top = fx


def query(log, ref, case, ctx, names):
    file, traj = case['kind'] == 'file', case['traj']
    ctx.count('queries')
    ctx.expect(len(log) == ref.count, 'len', f'len(log) is {len(log)}, {ref.count} iterations were put')
    ctx.expect(log.n_optimizers == len(ref.opts), 'n_optimizers', f'{log.n_optimizers} optimizers, {len(ref.opts)} were added')
    ctx.expect(log.largest_eval == ref.top, 'largest', f'largest is {log.largest_eval}, should be {ref.top}')
    b = log.get_best_iter()
    if ref.best is None:
        ctx.expect(b['fx'] == math.inf and len(b['x']) == 0, 'best', f'best is {b} though nothing below infinity was put')
    else:
        o, row = ref.best
        ctx.expect(b['opt_id'] == o and b['call_id'] == row[0] and same(b['x'], row[1]) and same(b['fx'], row[2])
                   and b['type'] == ref.opts[o]['meta']['opt_type'], 'best', f'best is {b}, should be {row} of {o}')
    for o in range(1, case['n'] + 2):
        r = ref.opts.get(o)
        if r is None:
            ctx.expect(o not in log, 'contains', f'{o} is said to be in the log')
            ctx.expect(log.len(o) == 0 and not log.has_iter_history(o) and len(log.get_history(o, 'fx')) == 0, 'unknown',
                       f'history for unknown optimizer {o}')
            continue
        held = file or not r['cleared']
        ctx.expect((o in log) == held, 'contains', f'{o} in log is {o in log}')
        ctx.expect(log.has_iter_history(o) == (r['table'] and held), 'has_history', f'has_iter_history({o})={log.has_iter_history(o)}')
        rows = r['rows'] if held else []
        ctx.expect(log.len(o) == len(rows), 'len_opt', f'len({o})={log.len(o)}, should be {len(rows)} (cleared {r["cleared"]})')
        b = log.get_best_iter(o)
        if r['best'] is None:
            ctx.expect(b['fx'] == math.inf and len(b['x']) == 0 and b['opt_id'] == o, 'best_opt', f'best of {o} is {b}')
        else:
            row = r['best']
            ctx.expect(b['opt_id'] == o and b['call_id'] == row[0] and same(b['x'], row[1]) and same(b['fx'], row[2])
                       and b['type'] == r['meta']['opt_type'], 'best_opt', f'best of {o} is {b}, should be {row}')
        cols = [('call_id', 0), ('x', 1), ('fx', 2)] + [(n, 3 + k) for k, n in enumerate(names)]
        if not rows and not r['table']:
            cols = cols[:3]
        if not rows:
            ctx.count('no_history')
        for name, k in cols:
            if rows or not held:
                got = log.get_history(o, name)
                want = [row[k] if k < 3 else row[3][k - 3] for row in rows]
                ctx.expect(same_col(got, want), 'history' if k < 3 else 'history_extra',
                           f'column {name} of {o}: {list(got)[:6]}.. ({len(got)}), should be {want[:6]}.. ({len(want)})')
            else:
                ctx.expect(len(log.get_history(o, name)) == 0, 'history', f'rows for {o} where none were put')
        for k, val in r['meta'].items():
            got = log.get_metadata(o, k)
            ctx.expect(same(got, val), 'metadata', f'metadata {k} of {o} is {got!r}, should be {val!r}')
        try:
            log.get_metadata(o, 'no_such_key')
            ctx.viol('metadata', f'metadata never put found for {o}')
        except KeyError:
            pass


def read_file(path, ref, ctx, names, checksum, case):
    ctx.count('files_read')
    with tb.open_file(path) as f:
        at = f.root._v_attrs
        ctx.expect(at.checksum == checksum, 'file_checksum', f'{at.checksum} != {checksum}')
        ctx.expect(at.f_counter == ref.count and at.opts_started == len(ref.opts), 'file_counters',
                   f'{at.f_counter} evaluations {at.opts_started} optimizers; should be {ref.count}, {len(ref.opts)}')
        ctx.expect(at.max_eval == ref.top, 'file_max', f'{at.max_eval} vs {ref.top}')
        b = at.best_iter
        ctx.expect((b['opt_id'], b['call_id']) == ((ref.best[0], ref.best[1][0]) if ref.best else (0, 0)), 'file_best', f'{b}')
        ctx.expect(set(at.best_iters) - {0} == set(ref.opts), 'file_best', f'best_iters of {set(at.best_iters)}')
        groups = {g._v_name: g for g in f.iter_nodes('/', 'Group')}
        ctx.expect(set(groups) == {f'optimizer_{o}' for o in ref.opts}, 'file_groups', f'{set(groups)}')
        for o, r in ref.opts.items():
            g = groups[f'optimizer_{o}']
            ctx.expect([str(m) for m in g['messages'][:]] == r['msgs'], 'file_messages', f'{g["messages"][:]} vs {r["msgs"]}')
            for k, val in r['meta'].items():
                ctx.expect(k in g._v_attrs and same(g._v_attrs[k], val), 'file_metadata', f'{k} of {o} in file')
            if r['best']:
                ctx.expect(g._v_attrs['best_iter']['call_id'] == r['best'][0], 'file_best_opt', f'best_iter of {o}')
            ctx.expect(('iter_hist' in g) == r['table'], 'file_table', f'table of {o}')
            if r['table']:
                t = g['iter_hist']
                ctx.expect(t.nrows == len(r['rows']), 'file_rows', f'{t.nrows} rows of {o}, {len(r["rows"])} iterations were put')
                for k, name in enumerate(['call_id', 'x', 'fx'] + names):
                    want = [row[k] if k < 3 else row[3][k - 3] for row in r['rows']]
                    ctx.expect(same_col(t.col(name), want), 'file_column', f'column {name} of {o}: {t.col(name)[:5]} vs {want[:5]}')


def value(kind, rng, n):
    if kind == 'ties':
        return float(rng.choice([0, 0, 1, 2, -1]))
    if kind == 'nasty':
        return rng.choice([math.nan, math.inf, -math.inf, 0.0, -0.0, 1e300, -1e300, rng.uniform(-5, 5), np.float64(rng.uniform(-5, 5)), 5e-324])
    if kind == 'ints':
        return rng.randint(-50, 50)
    if kind == 'up':
        return n * 0.5
    if kind == 'down':
        return 100 - n * 0.5
    return rng.uniform(-100, 100)


def extra(kind, rng):
    if kind is None:
        return []
    if kind == 'float':
        return [rng.uniform(-3, 3)]
    if kind == 'mixed':
        return [rng.uniform(-3, 3), rng.randint(-9, 9), rng.choice(['abc', 'x y', '']), rng.random() < 0.5]
    return [[rng.uniform(-3, 3) for _ in range(3)], np.array([[rng.randint(0, 9) for _ in range(2)] for _ in range(2)])]


def meta_value(rng):
    return rng.choice(['text', 'GloMPO Termination\nfoo', 3, 2.5, datetime.datetime(2020, 1, 1) + datetime.timedelta(0, rng.randrange(10 ** 6)),
                       'x' * 3000, 'a: b\n- c', -1])


def run(case, ctx):
    rng = random.Random(case['seed'])
    old = sys.getsizeof
    if case['size_flush']:
        sys.getsizeof = lambda o, d=0: 4_000_000
        ctx.count('size_flush')
    try:
        with sc.scratch() as d, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            go(case, ctx, rng, str(d))
    finally:
        sys.getsizeof = old
        tb.file._open_files.close_all()


def go(case, ctx, rng, d):
    file = case['kind'] == 'file'
    ctx.count(case['kind'])
    if case['traj']:
        ctx.count('traj')
    path = os.path.join(d, 'log.h5')
    heads = infer_headers(extra(case['extras'], rng))
    names = list(heads)
    if names:
        ctx.count('extras')
    csum = 'c%d' % case['seed']
    if file:
        log = FileLogger(n_parms=case['np'], expected_rows=50, build_traj_plot=case['traj'])
        log.open(path, 'w', csum)
    else:
        log = BaseLogger(n_parms=case['np'], expected_rows=50, build_traj_plot=case['traj'])
        log.open(path, 'w', csum)
    ref = Ref()
    reloads = 0
    trace = []
    for op, o, s in case['ops']:
        rng = random.Random(s)
        trace.append((op, o))
        o = ((o - 1) % (len(ref.opts) + 1)) + 1        # ids are given consecutively
        if op == 'add' or (o not in ref.opts and op not in ('reload', 'query', 'clear_all', 'flush_all')):
            o = len(ref.opts) + 1
            if o > case['n']:
                continue
            t = datetime.datetime(2021, 2, 3, 4, 5, 6) + datetime.timedelta(0, s)
            log.add_optimizer(o, f'Type{s % 3}', t)
            ref.add(o, f'Type{s % 3}', t)
            continue
        r = ref.opts.get(o)
        if op in ('iter', 'iters', 'burst'):
            if r['cleared']:
                continue
            if not r['table']:
                log.add_iter_history(o, infer_headers(extra(case['extras'], rng)) if names or s % 2 else None)
                r['table'] = True
            if op == 'burst':
                ctx.count('bursts')
            for _ in range(1 if op == 'iter' else rng.randint(65600, 67000) if op == 'burst' else rng.randint(2, 30)):
                x = [rng.uniform(-1, 1) for _ in range(case['np'])]
                fx = value(case['values'], rng, ref.count)
                ex = extra(case['extras'], rng)
                if fx != fx:
                    ctx.count('nan')
                if ref.best and fx == ref.best[1][2]:
                    ctx.count('ties')
                arg = np.array(x) if s % 3 == 0 else tuple(x) if s % 3 == 1 else x
                log.put_iteration(IterationResult(o, arg, fx, tuple(ex)))
                ref.put(o, x, fx, ex)
                ctx.count('iterations')
        elif op == 'meta':
            k, val = rng.choice(['t_stop', 'end_cond', 'w', 'note']), meta_value(rng)
            log.put_metadata(o, k, val)
            r['meta'][k] = val
            if r['cleared']:
                ctx.count('late_metadata')
        elif op == 'msg':
            m = rng.choice(['hello', 'Optimizer convergence: é☃', 'two\nlines', '', 'z' * 500])
            log.put_message(o, m)
            r['msgs'].append(m)
            if r['cleared']:
                ctx.count('late_message')
        elif op == 'clear':
            log.clear_cache(o)
            if r['cleared']:
                ctx.count('clear_twice')
            ctx.count('cleared')
            r['cleared'] = not case['traj'] or r['cleared']
        elif op == 'clear_all':
            log.clear_cache()
            ctx.count('cleared_all')
            for q in ref.opts.values():
                q['cleared'] = not case['traj'] or q['cleared']
        elif op == 'flush':
            log.flush(o)
            ctx.count('flushed')
        elif op == 'flush_all':
            log.flush()
        elif op == 'reload':
            reloads += 1
            sv = os.path.join(d, f'sv{reloads}')
            os.mkdir(sv)
            log.flush()
            log.checkpoint_save(sv if reloads % 2 else Path(sv))
            if file:
                if rng.random() < 0.5:             # the session which wrote the checkpoint goes on or is gone
                    log.close()
                    np_ = path
                else:
                    np_ = os.path.join(d, f'copy{reloads}.h5')
                    log.pytab_file.flush()
                    shutil.copy(path, np_)
                    log.close()
                path = np_
                csum = csum + 'n'
                log = FileLogger.checkpoint_load(os.path.join(sv, 'opt_log'))
                log.open(path, 'a', csum)
            else:
                log = BaseLogger.checkpoint_load(os.path.join(sv, 'opt_log'))
                log.open(path, 'a', csum)
            ctx.count('reloaded')
            query(log, ref, case, ctx, names)
        if op == 'query':
            query(log, ref, case, ctx, names)
    query(log, ref, case, ctx, names)
    log.close()
    if file:
        read_file(path, ref, ctx, names, csum, case)
    ctx.note(operations=len(case['ops']), iterations=ref.count, optimizers=len(ref.opts), reloads=reloads)
    if ref.count >= 3:
        ctx.sig(case['kind'], case['traj'], tuple(trace))
