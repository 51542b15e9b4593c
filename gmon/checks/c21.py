"""Print streams and log files of optimizers, with real threads and real processes."""
import io
import logging
import multiprocessing
import os
import random
import re
import sys
import threading
import time
import warnings

import numpy as np

from glompo.common.helpers import SplitOptimizerLogs
from glompo.convergence import BaseChecker
from glompo.core.manager import GloMPOManager
from glompo.generators import BaseGenerator
from glompo.hunters import BaseHunter
from glompo.opt_selectors import BaseSelector
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult

from gmon import scenario as sc

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring of real threads and processes: every print is journalled on a side channel when it returns; the '
             'stream files and the captured output of the program are compared with the journal; reference handlers record what '
             'the log files have to contain')
LEVEL_NOTE = 'Texts, calls and endings sampled from VERIF_SEED; the interleaving of real threads and processes is the machine\'s.'
RULE = ('Manager run with real threads or processes, 1-8 optimizers printing through print, write and writelines to both streams '
        'from the optimizer, its task and its helper threads (non-ASCII, long, empty and partial lines), ending normally, by '
        'failure, by being stopped or terminated, while the main program and another thread print; log records of all levels, '
        'with tracebacks, formatters, propagation and handler levels. Non-trivial: at least two optimizers (or loggers) with '
        'ten operations; distinct: case.')
ASSUMPTIONS = ['Of a terminated process the last partial line may be missing.',
               'The interpreter\'s own report of a failed thread is not output of the optimizer.']
CASES = {'quick': 90, 'thorough': 1500}
CAP = {'quick': 300, 'thorough': 800}
HANG = 120
REQUIRED = ['threads', 'processes', 'logs_threads', 'logs_processes', 'prints', 'records', 'non_ascii', 'killed', 'terminated',
            'crashed', 'finished', 'main_lines', 'user_thread_lines', 'twice', 'propagated', 'tracebacks', 'other_names', 'not_split']

TEXTS = ['plain {}', 'two\nlines {}', '', 'σ€é → {}', 'tab\t{}', 'x' * 70 + '{}', '{}\n\n', '日本 {}', '{}' + 'long' * 3000, 'end {}\r\n']


def gen(i, rng, tier):
    k = ['threads', 'processes', 'logs_threads', 'threads', 'logs_processes'][i % 5]
    c = {'kind': k, 'seed': rng.randrange(10 ** 9), 'jobs': rng.choice([1, 2, 4, 8]), 'n': rng.choice([5, 20, 60]),
         'opts': rng.choice([2, 3, 6, 10])}
    if k in ('threads', 'processes'):
        c.update(ends=rng.choice([['fin'], ['fin', 'fin', 'raise'], ['raise'], ['fin', 'silent']]), fmax=rng.choice([None, None, 30, 200]),
                 kill=rng.choice([0, 0, 0.3]), aggressive=rng.random() < 0.5, user_thread=rng.random() < 0.6,
                 twice=rng.random() < 0.3, sub=rng.random() < 0.25, split=rng.random() < 0.9, pace=rng.choice([0, 0, 0.001]))
        c['opts'] = min(c['opts'], c['jobs'] + 2)
        if k == 'threads' and rng.random() < 0.2:
            c.update(opts=13, n=5)
        if k == 'processes':
            c['jobs'] = min(c['jobs'], 4)
            c['opts'] = min(c['opts'], 5)
            if i % 3 == 1:
                c.update(jobs=4, opts=5, n=60, kill=0.6, aggressive=True, fmax=None, pace=0.001, split=True, ends=['fin'])
        elif i == 0:
            c.update(sub=True, split=True)
    else:
        c.update(propagate=rng.random() < 0.5, fmt=rng.choice([None, '%(levelname)s|%(name)s|%(message)s', 'm %(message)s']),
                 level=rng.choice(['DEBUG', 'DEBUG', 'INFO', 'WARNING']), rel=rng.random() < 0.2)
    return c


# ---- printing optimizers ---------------------------------------------------------------------------------------------
class Journal:
    """ Side channel which does not pass through any stream: one file per optimizer, one line per finished operation. """

    def __init__(self, d):
        self.d = d

    def put(self, o, what):
        fd = os.open(os.path.join(self.d, f'j{o}'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.write(fd, (what + '\n').encode())
        os.close(fd)

    def get(self, o):
        p = os.path.join(self.d, f'j{o}')
        if not os.path.exists(p):
            return None
        with open(p) as f:
            return f.read().split('\n')[:-1]


JOURNAL = None
CASE = None
SESSION = 0


def script(seed, session, o, n, sub, ends):
    """ What optimizer o prints, in order. """
    r = random.Random(f'{seed}.{session}.{o}')
    ops = []
    for k in range(n):
        for _ in range(r.randint(0, 3)):
            how = r.choice(['print', 'print', 'noend', 'write', 'writelines', 'flush', 'sep'])
            ops.append(['out' if r.random() < 0.6 else 'err', how, r.choice(TEXTS).format(f'o{o}s{session}k{len(ops)}'), 'opt'])
        ops.append(['out' if r.random() < 0.7 else 'err', 'print', f'task o{o}s{session}k{len(ops)}', 'task'])
        if sub and r.random() < 0.1:
            ops.append(['out', 'write', f'SUB o{o}s{session}k{len(ops)}\n', 'sub'])
    return ops, r.choice(ends)


def text_of(op):
    _, how, text, _ = op
    return {'print': text + '\n', 'noend': text, 'write': text, 'writelines': text + text, 'flush': text + '\n',
            'sep': text + '-' + text + '\n'}[how]


def emit(op):
    s = sys.stdout if op[0] == 'out' else sys.stderr
    t = op[2]
    if op[1] == 'print':
        print(t, file=None if op[0] == 'out' else s)
    elif op[1] == 'noend':
        print(t, end='', file=s)
    elif op[1] == 'write':
        s.write(t)
    elif op[1] == 'writelines':
        s.writelines([t, t])
    elif op[1] == 'flush':
        print(t, file=s, flush=True)
    elif op[1] == 'sep':
        print(t, t, sep='-', file=s)


class PrintTask:
    def __call__(self, x):
        op = script_of(int(x[0]))[0][int(x[1])]
        emit(op)
        return float((int(x[0]) * 7919 + int(x[1]) * 104729) % 1000)


_cache = {}


def script_of(o):
    key = (CASE['seed'], SESSION, o)
    if key not in _cache:
        _cache[key] = script(CASE['seed'], SESSION, o, CASE['n'], CASE['sub'], CASE['ends'])
    return _cache[key]


class PrintOpt(BaseOptimizer):
    def __init__(self, _opt_id=None, _signal_pipe=None, _results_queue=None, _pause_flag=None, workers=1, backend='threads',
                 is_log_detailed=False, **kw):
        super().__init__(_opt_id, _signal_pipe, _results_queue, _pause_flag, workers, backend, is_log_detailed)
        self.stopped = False

    def minimize(self, function, x0, bounds, callbacks=None, **kwargs):
        o = self._opt_id
        ops, end = script_of(o)
        JOURNAL.put(o, 'begin')
        for k, op in enumerate(ops):
            if op[3] == 'task':
                function([float(o), float(k)])
                JOURNAL.put(o, str(k))
                self.check_messages()
                self._pause_signal.wait()
                if CASE['pace']:
                    time.sleep(CASE['pace'])
                if self.stopped:
                    break
            elif op[3] == 'sub':
                t = threading.Thread(target=emit, args=(op,))
                t.start()
                t.join()
                JOURNAL.put(o, str(k))
            else:
                emit(op)
                JOURNAL.put(o, str(k))
        if end == 'raise' and not self.stopped:
            JOURNAL.put(o, 'raise')
            raise RuntimeError(f'failure of o{o}')
        JOURNAL.put(o, 'stopped' if self.stopped else 'end')
        if end != 'silent' or self.stopped:
            self.message_manager(0, 'Optimizer convergence')
        return MinimizeResult()

    def callstop(self, reason=''):
        self.stopped = True


class Sel(BaseSelector):
    def __init__(self, *a, n=3):
        super().__init__(*a)
        self.n = n

    def select_optimizer(self, manager, log, slots_available):
        return False if manager.o_counter >= self.n else self.avail_opts[0]


class Gen(BaseGenerator):
    def generate(self, manager):
        return np.array([0.5, 0.5])


class Chk(BaseChecker):
    def __init__(self, fmax, tell):
        super().__init__()
        self.fmax, self.tell, self.n = fmax, tell, 0

    def __call__(self, manager):
        self.n += 1
        if self.n < 400 and manager.t_start is not None:
            line = f'MAIN {SESSION} {self.n} é\n'
            sys.stdout.write(line)
            self.tell.append(line)
            if self.n % 3 == 0:
                print(f'MAIN {SESSION} {self.n} printed\n', end='', flush=True)
                self.tell.append(f'MAIN {SESSION} {self.n} printed\n')
        self.last_result = self.fmax is not None and manager.f_counter >= self.fmax
        return self.last_result


class Kill(BaseHunter):
    def __init__(self, p, seed):
        super().__init__()
        self.p, self.r = p, random.Random(seed)

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        self.last_result = self.r.random() < self.p
        return self.last_result


def session(case, d, wd, ctx):
    """ One run; returns what the program itself printed (expected), what arrived and the manager. """
    mains, users = [], []
    out = open(os.path.join(d, f'main{SESSION}.out'), 'w', encoding='utf-8', buffering=1)
    err = open(os.path.join(d, f'main{SESSION}.err'), 'w', encoding='utf-8', buffering=1)
    old = sys.stdout, sys.stderr
    stop = threading.Event()

    def chatter():
        k = 0
        while not stop.is_set() and k < 2000:
            line = f'USER {SESSION} {k}\n'
            sys.stdout.write(line)
            users.append(line)
            k += 1
            time.sleep(0.002)

    user = threading.Thread(target=chatter, name='user')
    m = GloMPOManager()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.setup(task=PrintTask(), bounds=[(0, 1e9)] * 2, opt_selector=Sel(PrintOpt, n=case['opts']), working_dir=wd,
                overwrite_existing=True, max_jobs=case['jobs'], backend=case['kind'],
                convergence_checker=Chk(case['fmax'], mains), x0_generator=Gen(),
                killing_conditions=Kill(case['kill'], case['seed']) if case['kill'] else None, hunt_frequency=5,
                status_frequency=600, summary_files=0, aggressive_kill=case['aggressive'] and case['kind'] == 'processes',
                split_printstreams=case['split'])
        sys.stdout, sys.stderr = out, err
        try:
            if case['user_thread']:
                user.start()
            m.start_manager()
            line = f'MAIN {SESSION} after\n'
            print(line, end='')
            mains.append(line)
            sys.stdout.flush()
            for attr in ('isatty', 'fileno', 'encoding', 'writable'):
                a = getattr(sys.stdout, attr)
                a() if callable(a) else a
        finally:
            stop.set()
            if user.is_alive():
                user.join()
            sys.stdout, sys.stderr = old
            out.close()
            err.close()
    got = [open(os.path.join(d, f'main{SESSION}.{e}'), encoding='utf-8', newline='').read() for e in ('out', 'err')]
    return mains, users, got, m


def judge(case, d, wd, ctx, mains, users, got, m):
    kind = case['kind']
    main_out, main_err = got
    pd = os.path.join(wd, 'glompo_optimizer_printstreams')
    if not case['split']:
        ctx.count('not_split')
        ctx.expect(not os.path.exists(pd), 'print streams split although not asked', os.listdir(wd))
        for line in mains:
            ctx.expect(line in main_out, 'output of the program lost', line)
        return
    have = set(os.listdir(pd)) if os.path.isdir(pd) else set()
    subs_seen = 0
    for o in range(1, m.o_counter + 1):
        j = JOURNAL.get(o)
        if j is None:
            why = str(m.opt_log.get_metadata(o, 'end_cond'))
            ctx.expect(not re.search(r'exitcode -[1-9]', why), f'{kind}: optimizer failed before it could print', (o, why))
            ctx.count('ended_before_begin')
            continue
        ops, end = script_of(o)
        done = [int(k) for k in j if k.isdigit()]
        last = j[-1] if not j[-1].isdigit() and j[-1] != 'begin' else None
        ctx.count({'end': 'finished', 'raise': 'crashed', 'stopped': 'killed', None: 'terminated'}[last])
        if last is None and not (case['aggressive'] and kind == 'processes'):
            ctx.viol('optimizer did not come to its end', (o, j[-3:]))
        for which in ('out', 'err'):
            name = f'printstream_{o:04}.{which}'
            if name not in have:
                ctx.viol(f'{kind}: no stream file', (o, which, sorted(have)))
                continue
            with open(os.path.join(pd, name), encoding='utf-8', newline='') as f:
                text = f.read()
            if case['sub']:
                text = re.sub(r'SUB o\d+s\d+k\d+\n', '', text) if kind == 'processes' else text
            want = ''.join(text_of(ops[k]) for k in done if ops[k][0] == which and ops[k][3] != 'sub')
            more = ''.join(text_of(ops[k]) for k in range((done[-1] + 1) if done else 0, len(ops))
                           if ops[k][0] == which and ops[k][3] != 'sub')
            if last is None:
                # terminated: every complete line which was printed, and nothing else
                full = want + more
                least = want[:want.rfind('\n') + 1]
                if not full.startswith(text) or len(text) < len(least):
                    ctx.viol(f'{kind}: output of a terminated optimizer', diff(text, least))
            elif which == 'err':
                if not text.startswith(want):
                    ctx.viol(f'{kind}: printed output differs (err)', (o, diff(text, want)))
                rest = text[len(want):]
                if rest and last != 'raise':
                    ctx.viol(f'{kind}: unexpected output (err)', (o, rest[:500]))
            elif text != want:
                ctx.viol(f'{kind}: printed output differs', (o, diff(text, want)))
        ctx.count('prints', len(done))
        if any(ord(ch) > 127 for k in done for ch in ops[k][2]):
            ctx.count('non_ascii')
        for k in done:
            if ops[k][3] == 'sub' and ops[k][2] in main_out:
                subs_seen += 1
                ctx.viol(f'{kind}: output of a helper thread of an optimizer goes to the program', ops[k][2])
                main_out = main_out.replace(ops[k][2], '')
    extra = {n for n in have if not re.match(r'printstream_\d{4}\.(out|err)$', n)}
    ctx.expect(not extra, 'unexpected stream files', extra)
    # the rest of the program
    lines = main_out.splitlines(keepends=True)
    leak = [l for l in lines if not l.startswith(('MAIN', 'USER'))]
    if leak:
        ctx.viol(f'{kind}: output of the program contains something else', leak[:5])
    if [l for l in lines if l.startswith('MAIN')] != mains:
        ctx.viol(f'{kind}: output of the program differs', diff(''.join(l for l in lines if l.startswith('MAIN')), ''.join(mains)))
    if [l for l in lines if l.startswith('USER')] != users:
        ctx.viol(f'{kind}: output of another thread differs', diff(''.join(l for l in lines if l.startswith('USER')), ''.join(users)))
    ctx.count('main_lines', len(mains))
    ctx.count('user_thread_lines', len(users))
    for o in range(1, m.o_counter + 1):
        for op in script_of(o)[0]:
            if op[0] == 'err' and op[3] != 'sub' and f'o{o}s{SESSION}k' in op[2] and op[2].strip() in main_err:
                ctx.viol(f'{kind}: error output of an optimizer in that of the program', op[2][:100])
                break


def diff(a, b):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return f'at {k} of {len(a)}/{len(b)}: got {a[max(0, k - 40):k + 60]!r}, expected {b[max(0, k - 40):k + 60]!r}'


def prints(case, ctx):
    global JOURNAL, CASE, SESSION
    CASE = case
    _cache.clear()
    with sc.scratch() as d:
        n = 0
        for s in range(2 if case['twice'] else 1):
            SESSION = s
            jd = d / f'j{s}'
            jd.mkdir()
            JOURNAL = Journal(str(jd))
            res = session(case, str(d), d / 'wd', ctx)
            judge(case, str(d), d / 'wd', ctx, *res)
            n += sum(1 for o in range(1, 20) for k in (JOURNAL.get(o) or []) if k.isdigit())
            if s:
                ctx.count('twice')
            if not ctx.violations:
                continue
    ctx.count(case['kind'])
    if n >= 20 and case['opts'] > 1:
        ctx.sig(str(sorted(case.items(), key=str)))
    ctx.note(kind=case['kind'], operations=n)


# ---- log records -----------------------------------------------------------------------------------------------------
LEVELS = [10, 20, 30, 40, 50]


def talk(case, o, r, n):
    log = logging.getLogger(f'glompo.optimizers.opt{o}')
    for k in range(n):
        lv = r.choice(LEVELS)
        msg = r.choice(['tok{}', 'multi\nline tok{}', 'σ€ tok{}', 'tok{} %s %d', 'tok{}' + 'z' * 3000]).format(f'{o}_{k}_')
        args = ('arg', k) if '%s' in msg else ()
        if r.random() < 0.15:
            try:
                raise ZeroDivisionError(f'cause {k}')
            except ZeroDivisionError:
                log.log(lv, msg, *args, exc_info=True)
        elif r.random() < 0.1:
            logging.getLogger(f'glompo.optimizers.opt{o}.part').log(lv, msg, *args)
        else:
            log.log(lv, msg, *args)


def logs(case, ctx):
    parent = logging.getLogger('glompo.optimizers')
    old_level, old_handlers = parent.level, list(parent.handlers)
    cwd = os.getcwd()
    base = case['seed'] % 10 ** 6 * 100
    ids = [base + k for k in range(case['opts'])]
    with sc.scratch() as d:
        d = str(d)
        os.chdir(d)
        fmt = logging.Formatter(case['fmt']) if case['fmt'] else None
        filt = SplitOptimizerLogs('split' if case['rel'] else os.path.join(d, 'split'), propagate=case['propagate'], formatter=fmt)
        shared = os.path.join(d, 'shared')
        handler = logging.FileHandler(shared, encoding='utf-8')
        handler.setLevel(case['level'])
        handler.setFormatter(logging.Formatter('S|%(name)s|%(levelno)d|%(message)s'))
        handler.addFilter(filt)
        parent.handlers = [handler]
        parent.setLevel('DEBUG')
        refs = {}
        for o in ids:
            h = logging.FileHandler(os.path.join(d, f'ref{o}'), encoding='utf-8')
            h.setFormatter(fmt)
            lv = []
            h.addFilter(lambda rec, lv=lv, p=os.path.join(d, f'lv{o}'): note(p, rec.levelno))
            logging.getLogger(f'glompo.optimizers.opt{o}').addHandler(h)
            refs[o] = h
        try:
            os.makedirs(os.path.join(d, 'elsewhere'), exist_ok=True)
            os.chdir(os.path.join(d, 'elsewhere'))
            r = random.Random(case['seed'])
            odd = r.random() < 0.5
            if odd:
                for n in ('glompo.optimizers', 'glompo.optimizers.optNone', 'glompo.optimizers.other'):
                    logging.getLogger(n).critical('odd %s', n)
                ctx.count('other_names')
            rs = {o: random.Random(f'{case["seed"]}.{o}') for o in ids}
            if case['kind'] == 'logs_threads':
                ts = [threading.Thread(target=talk, args=(case, o, rs[o], case['n'])) for o in ids]
            else:
                ts = [multiprocessing.Process(target=talk, args=(case, o, rs[o], case['n'])) for o in ids]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
                if case['kind'] == 'logs_processes' and t.exitcode != 0:
                    ctx.viol('logging failed in an optimizer process', t.exitcode)
        finally:
            os.chdir(cwd)
            parent.handlers, parent.level = old_handlers, old_level
            parent.setLevel(old_level)
            handler.close()
            for o in ids:
                lg = logging.getLogger(f'glompo.optimizers.opt{o}')
                for h in list(lg.handlers):
                    h.close()
                    lg.removeHandler(h)
        level = logging.getLevelName(case['level'])
        with open(shared, encoding='utf-8') as f:
            sh = f.read()
        for o in ids:
            with open(os.path.join(d, f'ref{o}'), encoding='utf-8') as f:
                ref = f.read()
            lv = [int(x) for x in open(os.path.join(d, f'lv{o}')).read().split()]
            p = os.path.join(d, 'split', f'optimizer_{o}.log')
            text = open(p, encoding='utf-8').read() if os.path.exists(p) else None
            ctx.count('records', len(lv))
            if 'Traceback' in ref:
                ctx.count('tracebacks')
            if text != ref:
                shown = [x >= level for x in lv]
                first = shown.index(True) if True in shown else None
                if (text is None and first is None) or (text is not None and first and ref.endswith(text) and
                                                        ref[:len(ref) - len(text)].count(f'tok{o}_') == first):
                    ctx.viol('log: records before the first one at the level of the handler are missing', (o, lv[:first]))
                else:
                    ctx.viol('log: file of the optimizer differs', (o, 'no file' if text is None else diff(text, ref)))
            # passed on
            toks = [(int(x), int(y)) for x, y in re.findall(r'tok(\d+)_(\d+)_', sh) if int(x) == o]
            if case['propagate']:
                want = [(o, k) for k, x in enumerate(lv) if x >= level]
                ctx.expect(toks == want, 'log: records passed on', (o, toks[:10], want[:10]))
                ctx.count('propagated', len(toks))
            else:
                ctx.expect(not toks, 'log: records passed on although not asked', (o, toks[:5]))
        if odd:
            ctx.expect(sh.count('odd glompo') == 3, 'log: records of other loggers', sh[:300])
    ctx.count(case['kind'])
    if case['opts'] > 1 and case['n'] >= 10:
        ctx.sig(str(sorted(case.items(), key=str)))
    ctx.note(kind=case['kind'], loggers=len(ids))


def note(p, lv):
    fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, b'%d\n' % lv)
    os.close(fd)
    return 1


def run(case, ctx):
    if case['kind'].startswith('logs'):
        logs(case, ctx)
    else:
        prints(case, ctx)
