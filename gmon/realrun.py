"""Sessions of the real manager with genuine processes or threads (no simulation).

The task and the optimizers write a journal (one O_APPEND write per event, so that it survives the death of its writer);
everything is judged after the run has returned and nothing depends on timing, except that a run in which nothing at all
happens for STALL seconds is interrupted and reported."""
import _thread
import math
import os
import random
import signal
import sys
import threading
import time
import traceback
import warnings

import numpy as np

from glompo.convergence import MaxFuncCalls
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.manager import GloMPOManager
from glompo.generators import RandomGenerator
from glompo.hunters import BaseHunter
from glompo.opt_selectors import CycleSelector
from glompo.opt_selectors.spawncontrol import NOptimizersSpawnStop
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult

from gmon.world import dec, enc, same

STALL = 60
RULE = (' About one case in twenty is a session with genuine processes or threads, the evaluations of which are journalled by '
        'the task.')
JPATH = None
CASE = None
SESSION = 0


def jot(*what):
    fd = os.open(JPATH, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, (' '.join(map(str, (SESSION,) + what)) + '\n').encode())
    finally:
        os.close(fd)


def value(o, k):
    r = random.Random(f"{CASE['seed']}/{o}/{k}")
    s = CASE['style']
    if s == 'ties':
        return float(r.randint(-2, 2))
    if s == 'nan':
        return math.nan if r.random() < .3 else math.inf if r.random() < .3 else r.gauss(0, 5)
    if s == 'desc':
        return 50. - k + r.random()
    return r.gauss(0, 10)


def plan(o):
    """ number of evaluations, how it ends, pause between evaluations """
    r = random.Random(f"{CASE['seed']}/{o}")
    kinds = CASE['ends'] if CASE['backend'] == 'processes' else [e for e in CASE['ends'] if e not in ('kill', 'exit', 'hang')]
    return r.randint(CASE['lo'], CASE['hi']), r.choice(kinds or ['fin']), r.choice(CASE['delays'])


class RealTask:
    def __call__(self, x):
        jot('E', int(x[0]), int(x[1]))
        return dec(x[2])


class RealOpt(BaseOptimizer):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.k = 0
        self.halt = False

    def minimize(self, function, x0, bounds, callbacks=None, **kw):
        o = self.opt_id
        n, end, delay = plan(o)
        jot('B', o, os.getpid(), self.k, int(self.is_restart), self.workers)
        while self.k < n and not self.halt:
            x = np.array([o, self.k, enc(value(o, self.k))], dtype=float)
            k = self.k
            self.k += 1
            function(x)
            jot('D', o, k)
            if delay:
                time.sleep(delay)
            self.check_messages()
            self._pause_signal.wait()
        if self.halt:
            jot('X', o, 'stopped')
            return MinimizeResult()
        jot('X', o, end)
        if end == 'raise':
            raise RuntimeError('boom')
        if end == 'exit':
            os._exit(3)
        if end == 'sysexit':
            raise SystemExit(self.opt_id % 2 + 1 if n % 2 else 'gave up')
        if end == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)
        if end == 'hang':
            time.sleep(10 ** 6)
        if end == 'fin':
            self.message_manager(0, 'Optimizer convergence')
        return MinimizeResult()

    def callstop(self, *a):
        jot('S', self.opt_id)
        self.halt = True


class Die(BaseHunter):
    def __init__(self, p, seed):
        super().__init__()
        self.p, self.r = p, random.Random(seed)

    def __call__(self, log, hunter_opt_id, victim_opt_id):
        self.last_result = self.r.random() < self.p
        return self.last_result


def gen(rng, faults=False, resume=False):
    c = {'real': True, 'seed': rng.randrange(10 ** 9), 'backend': rng.choice(['processes', 'threads']), 'jobs': rng.choice([1, 2, 3, 4]),
         'opts': rng.choice([1, 2, 4, 5]), 'lo': rng.choice([1, 5]), 'hi': rng.choice([5, 20, 60]),
         'style': rng.choice(['rand', 'ties', 'nan', 'desc']), 'delays': rng.choice([[0], [0, .001], [.001, .01]]),
         'ends': ['fin'], 'fmax': rng.choice([None, None, 10, 30]), 'kill': rng.choice([None, None, .1]),
         'aggressive': rng.random() < .3, 'share': rng.random() < .2, 'timeout': None, 'file': rng.random() < .3,
         'chk': None}
    if faults:
        c['backend'] = rng.choice(['processes', 'processes', 'threads'])
        c['ends'] = rng.choice([['fin', 'raise'], ['fin', 'kill'], ['fin', 'exit', 'raise', 'silent'], ['fin', 'fin', 'kill', 'silent'],
                                ['fin', 'sysexit'], ['fin', 'sysexit', 'raise']])
        c['opts'] = rng.choice([3, 4, 5])
    if resume:
        c.update(chk=rng.choice([3, 10]), fmax=rng.choice([15, 30]), hi=40, opts=rng.choice([2, 4]), kill=None, more=rng.choice([None, None, 20]),
                 pick=rng.random(), delays=[.001, .01], file=False)
    return c


class Out:
    pass


def journal():
    out = []
    if os.path.exists(JPATH):
        with open(JPATH) as f:
            for line in f:
                if line.endswith('\n'):
                    out.append(line.split())
    return out


def session(c, d, build):
    """ build() -> manager; runs it under a watchdog. """
    r = Out()
    r.stalled = False
    done = threading.Event()

    def watch():
        last, t = -1, time.monotonic()
        while not done.wait(.2):
            n = os.path.getsize(JPATH) if os.path.exists(JPATH) else 0
            if n != last:
                last, t = n, time.monotonic()
            elif time.monotonic() - t > STALL:
                f = sys._current_frames().get(threading.main_thread().ident)
                r.stalled = ''.join(traceback.format_stack(f))[-1500:] if f else True
                for e in journal():
                    if e[1] == 'B' and c['backend'] == 'processes' and int(e[3]) != os.getpid():
                        try:
                            os.kill(int(e[3]), signal.SIGKILL)
                        except OSError:
                            pass
                _thread.interrupt_main()
                return

    old = sys.stdout, sys.stderr
    r.warn = []
    r.exc = r.res = r.m = None
    null = open(os.devnull, 'w')
    dog = threading.Thread(target=watch, daemon=True)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            sys.stdout = sys.stderr = null
            r.m = build()
            dog.start()
            r.res = r.m.start_manager()
        except (Exception, KeyboardInterrupt) as e:
            r.exc = e
        finally:
            sys.stdout, sys.stderr = old
            done.set()
    r.warn = [str(w.message) for w in ws]
    # processes of the optimizers which are still there (the operating system gets some seconds to remove them)
    r.left = []
    if c['backend'] == 'processes':
        pids = {int(e[3]): e[2] for e in journal() if e[1] == 'B' and int(e[0]) == SESSION}
        pids.pop(os.getpid(), None)
        t = time.monotonic() + 5
        while pids:
            pids = {p: o for p, o in pids.items() if alive(p)}
            if time.monotonic() > t:
                break
            time.sleep(.05)
        r.left = sorted(pids.values())
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
    null.close()
    return r


def alive(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError:
        return False


def new(c, d):
    def build():
        m = GloMPOManager()
        chk = None
        if c['chk']:
            chk = CheckpointingControl(checkpoint_iter_frequency=c['chk'], checkpoint_at_conv=True, naming_format='c%(count)',
                                       checkpointing_dir=d / 'chk')
        m.setup(task=RealTask(), bounds=[(-1e303, 1e303)] * 3,
                opt_selector=CycleSelector(RealOpt, (RealOpt, {'workers': min(2, c['jobs'])}, None),
                                           allow_spawn=NOptimizersSpawnStop(c['opts'])),
                working_dir=d / 'wd', max_jobs=c['jobs'], backend=c['backend'],
                convergence_checker=MaxFuncCalls(c['fmax'] or 10 ** 9), x0_generator=RandomGenerator([(0., 1.)] * 3),
                killing_conditions=Die(c['kill'], c['seed']) if c['kill'] else None, hunt_frequency=7,
                share_best_solutions=c['share'], status_frequency=600, checkpoint_control=chk,
                summary_files=3 if c['file'] else 0, force_terminations_after=-1, aggressive_kill=c['aggressive'],
                split_printstreams=False)
        m.opt_log.build_traj_plot = True
        return m
    return build


def rows(m):
    out = {}
    for o in range(1, m.o_counter + 1):
        if m.opt_log.has_iter_history(o):
            xs = [[float(v) for v in x] for x in m.opt_log.get_history(o, 'x')]
            out[o] = list(zip([int(i) for i in m.opt_log.get_history(o, 'call_id')], xs,
                              [float(f) for f in m.opt_log.get_history(o, 'fx')]))
        else:
            out[o] = []
    return out


def judge(c, r, ctx, what, base=None, final=True):
    """ what: set of property names to judge. base: rows known before this session. """
    m, j = r.m, journal()
    begun = {int(e[2]) for e in j if e[1] == 'B'}
    ends = {int(e[2]): e[3] for e in j if e[1] == 'X'}
    evald = {}
    for e in j:
        if e[1] == 'E':
            evald.setdefault(int(e[2]), set()).add(int(e[3]))
    done = {}
    for e in j:
        if e[1] == 'D':
            done.setdefault(int(e[2]), set()).add(int(e[3]))
    ctx.count('real_sessions')
    ctx.count('real_' + c['backend'])
    ctx.count('real_evaluations', sum(map(len, evald.values())))
    if r.stalled:
        ctx.viol('real: the run makes no progress', r.stalled)
        return None
    if r.exc is not None:
        ctx.viol(f'real: start_manager raised {type(r.exc).__name__}',
                 ''.join(traceback.format_exception(type(r.exc), r.exc, r.exc.__traceback__))[-1500:])
        return None
    cond = str(r.res.stats.get('end_cond'))
    if 'Crash' in cond or 'Interrupt' in cond:
        ctx.viol('real: manager crashed', (cond, [w[-900:] for w in r.warn if 'Trace' in w]))
        return None
    exhausted = 'No optimizers alive' in cond
    tab = rows(m)
    killed = set(m.hunt_victims)
    n = 0
    ids = []
    for o, rr in tab.items():
        ids += [i for i, _, _ in rr]
        seqs = [int(x[1]) for _, x, _ in rr]
        n += len(rr)
        if 'C01' in what or 'C07' in what:
            if seqs != list(range(len(seqs))):
                ctx.viol('real: record missing, repeated or out of order', (o, seqs))
            for i, x, f in rr:
                if x[0] != o or not same(value(o, int(x[1])), f) or x[2] != enc(f):
                    ctx.viol('real: recorded parameters or value differ', (o, x, f))
                    break
            if not set(seqs) <= evald.get(o, set()):
                ctx.viol('real: recorded an evaluation which was not made', (o, seqs))
        if exhausted and o not in killed and ('C01' in what or 'C06' in what or 'C07' in what):
            lost = done.get(o, set()) - set(seqs)
            if lost:
                ctx.viol('real: evaluation lost', (o, sorted(lost), ends.get(o)))
    if 'C01' in what or 'C07' in what:
        ctx.expect(n == m.f_counter == r.res.stats['f_evals'], 'real: evaluation count', (n, m.f_counter, r.res.stats))
        ctx.expect(sorted(ids) == list(range(1, n + 1)), 'real: evaluation numbers', sorted(ids)[:50])
    fin = [(f, x) for rr in tab.values() for _, x, f in rr if f == f and f < math.inf]
    if 'C02' in what:
        if fin:
            b = min(f for f, _ in fin)
            x = list(r.res.x)
            ctx.expect(r.res.fx == b, 'real: reported value is not the best recorded', (r.res.fx, b))
            ctx.expect([b, x] in [[f, y] for f, y in fin], 'real: reported parameters do not belong to the value', x)
            ctx.expect(r.res.origin.get('opt_id') == int(x[0]), 'real: origin is not the producer', (r.res.origin, x))
        st = r.res.stats
        ctx.expect(st['opts_started'] == m.o_counter and begun <= set(range(1, m.o_counter + 1)), 'real: optimizers started', (st, begun))
        ctx.expect(st['opts_killed'] == len(killed), 'real: kills', (st, killed))
    if 'C05' in what:
        ctx.expect(not r.left, 'real: process left running', r.left)
        if exhausted:
            ctx.count('real_exhausted')
            ctx.expect(m.o_counter >= c['opts'] or not m.spawning_opts, 'real: ended as exhausted while optimizers could be started', m.o_counter)
            open_ = [o for o in begun if o not in ends and o not in killed]
            ctx.expect(not open_, 'real: ended as exhausted while an optimizer was running', open_)
        else:
            ctx.count('real_converged')
            ctx.expect(c['fmax'] is not None and m.f_counter >= c['fmax'], 'real: ended although the condition does not hold',
                       (cond, m.f_counter, c['fmax']))
    if 'C06' in what:
        for o in begun:
            try:
                ec = str(m.opt_log.get_metadata(o, 'end_cond'))
            except KeyError:
                ec = None
            how = ends.get(o)
            if o in killed or how in (None, 'stopped') or not exhausted:
                continue
            ctx.count('real_end_' + how)
            if how == 'fin':
                ctx.expect(ec == 'Optimizer convergence', 'real: end condition of an ordinary end', (o, how, ec))
            elif how in ('raise', 'kill', 'exit', 'sysexit'):
                ctx.expect(ec not in (None, 'None') and 'convergence' not in ec.lower() and 'rror' in ec,
                           'real: failure not recorded as an error', (o, how, ec))
        conv = sum(1 for o in begun if ends.get(o) == 'fin' and o not in killed)
        if exhausted and SESSION == 0:
            ctx.expect(conv <= m.conv_counter and m.conv_counter <= conv + sum(1 for h in ends.values() if h == 'silent'),
                       'real: converged optimizers', (m.conv_counter, conv, ends))
    if 'C03' in what:
        ctx.expect(begun <= set(range(1, m.o_counter + 1)), 'real: identifiers', (begun, m.o_counter))
    return tab


def run(c, ctx, what, scratch):
    """ One case. """
    global JPATH, CASE, SESSION
    CASE, SESSION = c, 0
    with scratch() as d:
        JPATH = str(d / 'journal')
        (d / 'wd').mkdir()
        r = session(c, d, new(c, d))
        tab = judge(c, r, ctx, what)
        if tab is not None:
            ctx.sig('real', str(sorted((o, len(v)) for o, v in tab.items())), c['seed'])
        if tab is None or not c['chk']:
            return
        chks = sorted(r.m.checkpoint_history)
        ctx.count('real_checkpoints', len(chks))
        if not chks:
            return
        path = chks[int(c['pick'] * len(chks))]
        # evaluations the optimizers make after the checkpoint are repeated in the resumed session: only these count
        os.rename(JPATH, JPATH + '.0')
        old = {}
        with open(JPATH + '.0') as f:
            for line in f:
                e = line.split()
                if e[1] in 'ED':
                    old.setdefault(int(e[2]), {}).setdefault(e[1], set()).add(int(e[3]))
        SESSION = 1
        c2 = dict(c, fmax=None)
        info = {}

        def load():
            m = GloMPOManager()
            m.load_checkpoint(path, convergence_checker=MaxFuncCalls(10 ** 9), working_dir=d / 'wd2')
            m.opt_log.build_traj_plot = True
            info['n'] = m.f_counter
            info['rows'] = {o: [s[1] for s in rr] for o, rr in rows(m).items()}
            # what was made before the checkpoint counts as journalled
            with open(JPATH, 'a') as f:
                for o, xs in info['rows'].items():
                    for x in xs:
                        f.write(f'0 E {o} {int(x[1])}\n0 D {o} {int(x[1])}\n')
            return m

        r2 = session(c2, d, load)
        if 'rows' in info:
            for o, xs in info['rows'].items():
                ctx.expect([int(x[1]) for x in xs] == list(range(len(xs))) and {int(x[1]) for x in xs} <= old.get(o, {}).get('E', set()),
                           'real: history after loading', (o, xs[:5]))
        if judge(c2, r2, ctx, what) is not None:
            ctx.count('real_resumed')
            for e in journal():
                if e[1] == 'B' and int(e[0]) == 1:
                    o = int(e[2])
                    if o in info['rows']:
                        ctx.expect(e[5] == '1' and int(e[4]) == len(info['rows'][o]), 'real: optimizer not resumed in its saved state',
                                   (e, len(info['rows'][o])))
                        ctx.count('real_optimizers_resumed')
