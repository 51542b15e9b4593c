import math
import os
import shutil
import subprocess
import types
import warnings

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402

from gmon import chain, oracle, scenario as sc, simchecks  # noqa: E402
from gmon.sim import REAL  # noqa: E402
from gmon.world import RecChecker, same  # noqa: E402

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: the plotted streams and markers of the live scope are compared with the recorded trace '
             'of simulated sessions and resumed sessions; direct histories of scope operations against a model; frames '
             'of the written movie counted')
RULE = ('(a) random simulated session (see C01) with the scope switched on (range, log scale, best-only, flush interval '
        'vary); (b) the same with a checkpoint which is loaded and resumed; (c) random history of scope operations on '
        'several streams incl. saving and loading. Non-trivial: points were plotted; distinct: different interleaving '
        'signature or history.')
ASSUMPTIONS = simchecks.ASSUMPTIONS + ['The figures are drawn by the Agg backend of matplotlib; no window is opened.',
                                       'ffmpeg and ffprobe judge the movie files.']
CASES = {'quick': 150, 'thorough': 1800}
REQUIRED = ['sessions', 'points', 'kill_marks', 'norm_marks', 'crash_marks', 'chkpt_marks', 'pause_marks', 'resumed',
            'truncated', 'elitism', 'log_scale', 'histories', 'flushes', 'movies', 'interrupted', 'saved_and_loaded', 'revived']
HANG = 150
VAR = 'opt_kill opt_norm opt_crash pause chkpt'.split()


def scope_args(rng):
    a = {'events_per_flush': rng.choice([10, 60, 10 ** 6, 10 ** 6, 10 ** 6])}
    r = rng.random()
    if r < .3:
        a['x_range'] = rng.choice([2, 5, 20, 60])
    elif r < .5:
        a['x_range'] = None
    elif r < .6:
        a['x_range'] = (0, 100)
    a['log_scale'] = rng.random() < .35
    a['elitism'] = rng.random() < .35
    if rng.random() < .2:
        a['y_range'] = (-3, 10)
    return a


def gen(i, rng, tier):
    r = i % 10
    if r in (3, 7):
        return {'kind': 'direct', 'seed': rng.randrange(10 ** 9), 'args': scope_args(rng), 'n': rng.choice([40, 150, 400]),
                'streams': rng.randint(1, 5), 'style': rng.choice(sc.STYLES), 'reload': rng.random() < .5,
                'movie': i % 30 == 3}
    c = sc.base_cfg(rng)
    c['args'] = scope_args(rng)
    c['max_opts'] = rng.choice([1, 2, 4, 7])
    c['max_jobs'] = rng.choice([1, 2, 3, 5])
    c['opts'] = [1]
    c['hi'] = rng.choice([3, 10, 30, 60])
    c['lo'] = rng.choice([0, 1])
    if rng.random() < .4:
        c['lo'] = 1
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1], ['die', 1], ['exit', 1]]
    if c['proc'] and rng.random() < .1:
        c['lo'] = 1
        c['endings'] = [['fin', 2], ['hang', 1]]
        c['force_after'] = 60
    c['kind'] = 'session'
    c['interrupt'] = 0
    if rng.random() < .12:
        c['interrupt'] = rng.choice([1, 2])
        c['args']['events_per_flush'] = 5
    c['movie'] = i % 40 in (11, 21)
    if r in (1, 5, 9):
        c['kind'] = 'resume'
        c['chk'] = {'iter': rng.choice([3, 10, 25]), 'conv': rng.random() < .3}
        c['fmax'] = rng.choice([20, 40])
        c['hi'] = 60
        c['lo'] = 5
        c['rounds'] = None
        c['pick'] = rng.random()
        c['sim_seed2'] = rng.randrange(10 ** 9)
        return c
    return sc.many(c, rng, 0.05, (13,))


# ---- model of one stream ---------------------------------------------------------------------------------------------
def log10(y):
    with np.errstate(all='ignore'):
        return float(np.log10(np.float64(y)))


def expected(points, a):
    """ points: [(number, value)] of one optimizer. """
    out = []
    best = None
    for x, y in points:
        if a.get('elitism'):
            if best is None or best != best or y < best:
                best = y
            y = best
        out.append((x, log10(y) if a.get('log_scale') else y))
    return out


def close(a, b):
    return same(a, b) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def line(ln):
    return [(float(x), float(y)) for x, y in zip(np.atleast_1d(ln.get_xdata()), np.atleast_1d(ln.get_ydata()))]


def judge_stream(o, got, want, a, xmax, ctx, strict_old=False):
    tr = a.get('x_range', 300)
    tr = tr if isinstance(tr, int) else None
    k = len(want) - len(got)
    if k < 0:
        ctx.viol('more points than evaluations', f'optimizer {o}: {len(got)} points, {len(want)} evaluations')
        return
    tail = want[k:]
    if [x for x, _ in tail] != [x for x, _ in got]:
        ctx.viol('points are not the evaluations recorded', f'optimizer {o}: at {[x for x, _ in got][-12:]}, '
                                                            f'recorded {[x for x, _ in want][-12:]}')
        return
    bad = [(x, y, yy) for (x, y), (_, yy) in zip(got, tail) if not close(y, yy)]
    if bad:
        ctx.viol('plotted value is wrong', f'optimizer {o}: (number, plotted, expected) {bad[:5]} {a}')
    dropped = want[:k]
    if dropped and (tr is None or dropped[-1][0] >= xmax - tr):
        ctx.viol('point missing', f'optimizer {o}: {dropped[-1]} of {len(dropped)} missing, range {tr}, now at {xmax}')
    if strict_old and tr is not None and got and got[0][0] < xmax - tr:
        ctx.viol('points beyond the range are kept', f'optimizer {o}: {got[0]}, now at {xmax}, range {tr}')
    ctx.count('points', len(got))
    ctx.count('truncated', bool(dropped))


# ---- sessions --------------------------------------------------------------------------------------------------------
class Watch:
    """ When the manager recorded ends and messages, in terms of the evaluations recorded before. """

    def __init__(self, interrupt=0):
        self.ends, self.messages, self.flush = [], [], 0
        self.interrupt, self.interrupted = interrupt, False

    def attach(self, m, w):
        log = m.opt_log
        put, msg = log.put_metadata, log.put_message

        def put_metadata(opt_id, key, value):
            if key == 'end_cond':
                self.ends.append((opt_id, str(value), len(w.rec)))
            return put(opt_id, key, value)

        def put_message(opt_id, message):
            self.messages.append((opt_id, str(message), len(w.rec)))
            return msg(opt_id, message)

        log.put_metadata, log.put_message = put_metadata, put_message
        canvas = m.scope.fig.canvas
        draw = canvas.draw

        def counted(*a, **k):
            self.flush += 1
            if self.flush == self.interrupt:
                self.interrupted = True
                raise KeyboardInterrupt
            return draw(*a, **k)

        canvas.draw = counted


def marks(ends):
    """ What the legend says about how an optimizer ended. """
    for o, cond, n in ends:
        if cond.startswith('GloMPO Termination') or cond.startswith('Forced GloMPO Termination'):
            yield o, 'opt_kill', n
        elif cond.startswith('Error termination'):
            yield o, 'opt_crash', n
        elif cond in oracle.NORMAL or cond.startswith('Normal termination') or 'Optimizer convergence' in cond:
            yield o, 'opt_norm', n


def judge_scope(v, watch, ctx, before=(), before_marks=None, a=None):
    """ before: records of the optimization before this session. """
    m, W = v.t.m, v.W
    s = m.scope
    allrec = list(before) + v.rec
    pts = {}
    for i, r in enumerate(allrec):
        pts.setdefault(r['opt'], []).append((float(i + 1), r['fx']))
    want = {o: expected(p, a) for o, p in pts.items()}
    xmax = len(allrec)
    streams = {int(k): line(ln) for k, ln in s.opt_streams.items()}
    started = set(v.new) | set(v.life) | set(pts)
    if not ctx.expect(set(streams) >= started, 'optimizer without a stream', (sorted(streams), sorted(started))):
        return
    ctx.expect(set(streams) <= set(range(1, m.o_counter + 1)), 'stream of an unknown optimizer', (sorted(streams), m.o_counter))
    for o, got in streams.items():
        judge_stream(o, got, want.get(o, []), a, xmax, ctx)
    ctx.expect(s.ax.get_lines() is not None and
               len({id(ln) for ln in s.opt_streams.values()}) == len(s.opt_streams), 'streams are shared', '')

    def far(o, n):
        p = [w for w, (x, _) in zip(want.get(o, []), pts.get(o, [])) if x <= n]
        return p[-1] if p else None

    got = {k: set(line(s.gen_streams[k])) for k in VAR}
    got = {k: {(x, 'nan' if y != y else round(y, 6) if abs(y) < 1e9 else float(f'{y:.9g}')) for x, y in g}
           for k, g in got.items()}

    def norm(p):
        x, y = p
        return x, 'nan' if y != y else round(y, 6) if abs(y) < 1e9 else float(f'{y:.9g}')

    tr = a.get('x_range', 300)
    tr = tr if isinstance(tr, int) and not isinstance(tr, bool) else None
    need = {k: {} for k in VAR}
    may = {k: set(before_marks[k]) if before_marks else set() for k in VAR}
    for o, k, n in marks(watch.ends):
        p = far(o, n)
        if p is not None:
            need[k].setdefault(norm(p), (o, n))
            ctx.count({'opt_kill': 'kill_marks', 'opt_norm': 'norm_marks', 'opt_crash': 'crash_marks'}[k])
    for o, text, n in watch.messages:
        if 'Traceback' in text or 'Terminated in error' in text:
            p = far(o, n)
            if p is not None:
                may['opt_crash'].add(norm(p))
                if 'Traceback' in text:
                    need['opt_crash'].setdefault(norm(p), (o, n))
                    ctx.count('crash_marks')
    for c in chain.checkpoints_of(W, W.session):
        for o in c['saved']:
            p = far(o, c['end']['n_rec'])
            if p is not None and v.end != 'GloMPO Crash':
                need['chkpt'].setdefault(norm(p), (o, c['end']['n_rec']))
                ctx.count('chkpt_marks')
                p0 = far(o, c['begin']['n_rec'])
                if p0 is None or tr is not None:
                    continue  # nothing of it was shown when it paused
                ok = {norm(q) for q in want[o] if p0[0] <= q[0] <= p[0]}
                ctx.expect(got['pause'] & ok, 'no pause marked at a checkpoint', (o, ok, sorted(map(str, got['pause']))[:9]))
                ctx.count('pause_marks')
    allpts = {norm(p) for w in want.values() for p in w}
    may['pause'] |= allpts if W.of('chkpt_begin') or v.c.get('chk') else set()
    may['chkpt'] |= allpts if W.of('chkpt_begin') or v.c.get('chk') else set()
    if before_marks is None or True:
        for k in VAR:
            for p, (o, n) in need[k].items():
                if p not in got[k]:
                    if tr is not None and p[0] < n - tr:
                        continue  # out of the range shown when it ended
                    ctx.viol(f'not marked: {k}', f'optimizer {o} at {p} (after {n} evaluations), marked {sorted(map(str, got[k]))[:12]}')
            extra = got[k] - set(need[k]) - may[k]
            if extra:
                ctx.viol(f'marked without reason: {k}',
                         f'{sorted(map(str, extra))[:6]}; {watch.ends[:8]} {[x[:2] for x in watch.messages][:6]}')
    events = len(v.rec)
    epf = a['events_per_flush']
    ctx.count('flushes', watch.flush)
    ctx.expect(watch.flush >= events // (epf + 1), 'redrawn too rarely', (watch.flush, events, epf))
    return got


def judge_run(v, ctx, base=None, before=()):
    if v.end == 'GloMPO Crash' and not oracle.legit_crash_loop(v):
        oracle.run_ok(v, ctx)
        return False
    oracle.c01(v, ctx, base=base)
    oracle.c02(v, ctx, rec_before=before)
    return True


def frames(path):
    r = subprocess.run(['ffprobe', '-v', 'error', '-count_frames', '-select_streams', 'v:0', '-show_entries',
                        'stream=nb_read_frames', '-of', 'csv=p=0', str(path)], capture_output=True, text=True, timeout=60)
    out = r.stdout.strip().strip(',')
    return int(out) if out.isdigit() else None


def wait_frames(path, want):
    """ ffmpeg completes the file after its input was closed. """
    got = None
    for _ in range(120):
        if path.exists():
            got = frames(path)
            if got == want:
                return got
        REAL.sleep(.1)
    return got


class Grabs:
    """ Counts the frames given to the movie writer, and the encoders started. """

    def __enter__(self):
        import matplotlib.animation as ani
        self.cls, self.n = ani.FFMpegWriter, 0
        self.procs = []
        self.popen = ani.subprocess.Popen

        def popen(*a, **k):
            p = self.popen(*a, **k)
            self.procs.append(p)
            return p

        self.ani = ani
        self.real = ani.subprocess
        ani.subprocess = types.SimpleNamespace(**{k: getattr(subprocess, k) for k in dir(subprocess)
                                                  if not k.startswith('__')})
        ani.subprocess.Popen = popen
        self.old = self.cls.grab_frame

        def grab_frame(w, *a, **k):
            r = self.old(w, *a, **k)
            self.n += 1
            return r

        self.cls.grab_frame = grab_frame
        return self

    def __exit__(self, *a):
        self.cls.grab_frame = self.old
        self.ani.subprocess = self.real
        for p in self.procs:
            if p.poll() is None:
                p.kill()
                p.wait()

    def running(self):
        """ Encoders which have not ended although the movie is complete. """
        for _ in range(100):
            left = [p.pid for p in self.procs if p.poll() is None]
            if not left:
                break
            REAL.sleep(.1)
        return left


def session(case, ctx):
    a = case['args']
    watch = Watch(case['interrupt'])
    movie = bool(case['movie']) and shutil.which('ffmpeg')
    if movie:
        a = dict(a, record_movie=True, events_per_flush=20)
    with sc.scratch() as d, Grabs() as grabs:
        wd = d / 'run'
        a = {k: tuple(x) if isinstance(x, list) else x for k, x in a.items()}
        t = sc.run(case, wd, prepare=lambda m, S, w: watch.attach(m, w), visualisation=True, visualisation_args=dict(a))
        v = oracle.View(t)
        ctx.count('sessions')
        if not oracle.run_ok(v, ctx, crash_ok=True) or not watch.interrupted and not judge_run(v, ctx):
            return
        if watch.interrupted:
            ctx.count('interrupted')
            ctx.expect(v.end == 'User Interrupt', 'user interrupt lost', v.end)
            left = [o for o, sig in t.alive_after if sig is None]
            ctx.expect(not left or not case['proc'], 'optimizers left running', t.alive_after)
            return
        else:
            ctx.expect(v.end != 'User Interrupt', 'interrupted without reason', v.end)
        ctx.expect(plt.get_fignums() == [], 'figure left open', plt.get_fignums())
        got = judge_scope(v, watch, ctx, a=a)
        if movie and v.end not in ('GloMPO Crash', 'User Interrupt'):
            files = sorted(p.name for p in wd.rglob('*.mp4'))
            if ctx.expect(files == ['glomporecording.mp4'], 'movie not in the working directory', files):
                n = wait_frames(wd / 'glomporecording.mp4', grabs.n)
                ctx.expect(n == grabs.n and n > 0, 'movie does not hold the frames taken', (n, grabs.n))
            ctx.expect(not grabs.running(), 'movie encoder left running', len(grabs.procs))
            ctx.count('movies')
        ctx.count('elitism', bool(a['elitism']))
        ctx.count('log_scale', bool(a['log_scale']))
        if v.rec:
            ctx.sig(t.S.sig, len(v.rec), len(v.life))
        ctx.note(recorded=len(v.rec), optimizers=len(v.life), drawn=watch.flush, end=str(v.end)[:50])
        if case['kind'] != 'resume' or got is None:
            return
        chks = [x for x in chain.checkpoints_of(t.W, t.W.session) if x['path'] is not None and x['path'].exists()]
        if not chks:
            return
        chk = chks[int(case['pick'] * len(chks))]
        rs = chain.Resume(t.W, chk)
        S, W2, m = chain.load(case, wd, t.W, rs, case['sim_seed2'], checker=RecChecker(rs.n_rec + 15))
        g0 = grabs.n
        try:
            w2 = Watch()
            w2.attach(m, W2)
            # what had been marked when the checkpoint was made
            n0 = rs.n_rec
            old = {k: {p for p in got[k] if p[0] <= n0} for k in VAR}
            ctx.expect(not any('scope' in x for x in W2.load_warnings), 'scope not restored', W2.load_warnings)
            ctx.expect(m.scope is not None and len(plt.get_fignums()) <= 1, 'figures after loading', plt.get_fignums())
            have = {k: {p[0] for p in line(m.scope.gen_streams[k])} for k in VAR}
            for k in ('opt_kill', 'opt_norm'):
                exp = {p[0] for o, kk, n in marks(watch.ends) if kk == k and n <= n0 and o in rs.base and
                       chk['end']['snap']['opts'][o]['meta'].get('end_cond') is not None
                       for p in [last(rs.rec, o, n)] if p}
                if a.get('x_range', 300) is None or isinstance(a.get('x_range'), tuple):
                    ctx.expect(exp <= have[k], 'markers lost by the checkpoint', (k, exp, have[k]))
            t2 = sc.start(m, S, W2)
        finally:
            chain.leave(S)
        t2.c = dict(case)
        v2 = oracle.View(t2)
        ctx.count('resumed')
        if not oracle.run_ok(v2, ctx, crash_ok=True):
            return
        if v2.checked and not judge_run(v2, ctx, base=rs.base, before=rs.rec):
            return
        ctx.expect(plt.get_fignums() == [], 'figure left open after resuming', plt.get_fignums())
        if movie and v2.checked and v2.end not in ('GloMPO Crash', 'User Interrupt'):
            files = sorted(p.name for p in d.rglob('*.mp4'))
            ctx.expect(files == ['glomporecording.mp4'], 'movie after resuming not in the working directory', files)
            n = wait_frames(wd / 'glomporecording.mp4', grabs.n - g0)
            ctx.expect(n == grabs.n - g0 and n > 0, 'movie after resuming does not hold the frames taken',
                       (n, grabs.n - g0))
            ctx.count('resumed_movies')
        if movie:
            ctx.expect(not grabs.running(), 'movie encoder left running after resuming', len(grabs.procs))
        if not v2.checked:
            ctx.count('nothing_left_to_do')
        judge_scope(v2, w2, ctx, before=rs.rec, before_marks=old, a=dict(a))


def last(rec, o, n):
    p = None
    for i, r in enumerate(rec[:n]):
        if r['opt'] == o:
            p = (float(i + 1), r['fx'])
    return p


# ---- direct histories ------------------------------------------------------------------------------------------------
def direct(case, ctx):
    import random
    from glompo.core.scope import GloMPOScope
    rng = random.Random(case['seed'])
    a = {k: tuple(x) if isinstance(x, list) else x for k, x in case['args'].items()}
    movie = case['movie'] and shutil.which('ffmpeg')
    with sc.scratch() as d, Grabs() as grabs, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if movie:
            a.update(record_movie=True, events_per_flush=15, movie_kwargs={'outfile': 'my movie'})
        elif rng.random() < .4:
            a['events_per_flush'] = rng.choice([1, 2, 3, 7])
        s = GloMPOScope(**a)
        draws = [0]
        quiet = not movie and a['events_per_flush'] < 10

        def watch(s):
            draw = s.fig.canvas.draw

            def counted(*aa, **k):
                draws[0] += 1
                return None if quiet else draw(*aa, **k)

            s.fig.canvas.draw = counted

        watch(s)
        if movie:
            s.setup_moviemaker(d)
        pts, mk = {}, {k: [] for k in VAR}
        x = 0
        since = 0
        vals = sc.values(rng, case['style'], case['n'])
        epf = a['events_per_flush']
        lo = 0
        for y in vals:
            r = rng.random()
            before = draws[0]
            if len(pts) < case['streams'] and (not pts or r < .06):
                o = len(pts) + 1
                s.add_stream(o, rng.choice([None, 'Type']))
                pts[o] = []
                continue
            o = rng.choice(sorted(pts))
            if r < .9:
                # some optimizers fall silent for a while so that they leave the range
                o = min(len(pts), 1 + (x // 37 + (r < .1)) % len(pts))
                x += rng.choice([1, 1, 1, 2, 9])
                shown = len(line(s.opt_streams[o]))
                s.update_optimizer(o, (x, y))
                ctx.count('revived', bool(pts[o]) and not shown)
                pts[o].append((float(x), y))
            else:
                k = rng.choice(VAR)
                shown = line(s.opt_streams[o])
                {'opt_kill': s.update_kill, 'opt_norm': s.update_norm_terminate, 'opt_crash': s.update_crash_terminate,
                 'pause': s.update_pause, 'chkpt': s.update_checkpoint}[k](o)
                if shown:
                    mk[k].append(shown[-1])
            since += 1
            if draws[0] > before:
                since = 0
                for oo in pts:
                    judge_stream(oo, line(s.opt_streams[oo]), expected(pts[oo], a), a, x, ctx, strict_old=True)
                if ctx.violations:
                    break
            ctx.expect(since <= epf, 'not redrawn', (since, epf))
            if case['reload'] and not movie and rng.random() < 2 / case['n']:
                s.checkpoint_save(d)
                s.close_fig()
                s = GloMPOScope(**({} if rng.random() < .5 else a))
                s.load_state(d)
                watch(s)
                ctx.count('saved_and_loaded')
        for o in pts:
            judge_stream(o, line(s.opt_streams[o]), expected(pts[o], a), a, x, ctx)
            f = s.get_farthest_pt(o)
            g = line(s.opt_streams[o])
            ctx.expect((f is None) == (not g) and (f is None or same(f[0], g[-1][0]) and same(f[1], g[-1][1])),
                       'farthest point', (o, f, g[-1:]))
        for k in VAR:
            got = line(s.gen_streams[k])
            ctx.expect(len(got) == len(mk[k]) and all(same(p[0], q[0]) and close(p[1], q[1]) for p, q in zip(got, mk[k])),
                       f'markers differ: {k}', (got[:8], mk[k][:8]))
        if movie:
            s.generate_movie()
            n = wait_frames(d / 'my movie.mp4', grabs.n)
            ctx.expect(n == grabs.n and n > 0, 'movie does not hold the frames taken', (n, grabs.n, os.listdir(d)))
            ctx.count('movies')
        s.close_fig()
        if not case['reload']:
            ctx.expect(plt.get_fignums() == [], 'figure left open', plt.get_fignums())
        plt.close('all')
        ctx.count('histories')
        ctx.sig(case['seed'], x, draws[0])
        ctx.note(points=sum(map(len, pts.values())), draws=draws[0], streams=len(pts))


def run(case, ctx):
    plt.close('all')
    direct(case, ctx) if case['kind'] == 'direct' else session(case, ctx)
