"""Runner: generates cases, executes them in worker processes under watch, collects what the monitors saw."""
import argparse
import collections
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.realpath(os.environ.get('GMON_REPO', '/repo'))
LINE_BUDGET = 25_000_000


class Ctx:
    """ What a case reports. """

    def __init__(self, pid, tier, scratch):
        self.pid, self.tier, self.scratch = pid, tier, scratch
        self.reset()

    def reset(self):
        self.violations = []
        self.counts = collections.Counter()
        self.sigs = set()
        self.notes = []

    def viol(self, mech, msg=''):
        if len(self.violations) < 20:
            self.violations.append([mech, str(msg)[:1500]])

    def expect(self, cond, mech, msg=''):
        if not cond:
            self.viol(mech, msg() if callable(msg) else msg)
        return bool(cond)

    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *what):
        """ The case was not trivial; `what` tells distinct ones apart. """
        self.sigs.add(hash(what) & 0xffffffffffff)

    def note(self, **kw):
        self.notes.append(kw)


class LineBudget(BaseException):
    pass


def load_check(pid):
    return importlib.import_module('gmon.checks.' + pid.lower())


def case_rng(pid, seed, i):
    return random.Random(f'{pid}/{seed}/{i}')


def exec_case(mod, case, ctx):
    ctx.reset()
    try:
        mod.run(case, ctx)
        return None
    except LineBudget:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        # library frames (numpy...) count for whoever called them
        owner = None
        for fr in reversed(tb):
            fn = os.path.realpath(fr.filename)
            if fn.startswith(REPO + os.sep):
                owner = 'repo'
                break
            if fn.startswith(HERE + os.sep):
                owner = 'harness'
                break
        if owner == 'repo':
            ctx.viol(f'exception:{type(e).__name__}', text)
            return None
        return text


def with_line_budget(fn):
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] > LINE_BUDGET:
                raise LineBudget()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO):
            return local
        return None

    import threading
    threading.settrace(tracer)
    sys.settrace(tracer)
    try:
        fn()
        return None
    except LineBudget:
        return n[0]
    finally:
        sys.settrace(None)
        threading.settrace(None)


def worker(a):
    from gmon import boot
    os.environ['GMON_SCRATCH'] = a.scratch
    boot.load()
    mod = load_check(a.pid)
    ctx = Ctx(a.pid, a.tier, a.scratch)
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)

    def emit(d):
        out.write(json.dumps(d) + '\n')
        out.flush()

    if a.trace_case is not None:
        with open(a.trace_case) as f:
            case = json.load(f)
        err = [None]

        def go():
            err[0] = exec_case(mod, case, ctx)

        lines = with_line_budget(go)
        if lines:
            ctx.viol('nontermination', f'case still running after {lines} executed lines of the code under test')
        emit({'i': -1, 'viol': ctx.violations, 'err': err[0], 'counts': ctx.counts, 'sigs': [], 'case': case,
              'notes': []})
        os._exit(0)
    t_end = time.monotonic() + a.cap
    i = a.first
    while i < a.cases and time.monotonic() < t_end:
        case = mod.gen(i, case_rng(a.pid, a.seed, i), a.tier)
        if case is not None:
            case = json.loads(json.dumps(case))
            emit({'start': i, 'case': case})
            t0 = time.monotonic()
            err = exec_case(mod, case, ctx)
            emit({'i': i, 'viol': ctx.violations, 'err': err, 'counts': ctx.counts, 'sigs': list(ctx.sigs),
                  'notes': ctx.notes[:1] if i < 40 else [], 't': round(time.monotonic() - t0, 3)})
        i += a.stride
    emit({'done': True})
    out.flush()
    os._exit(0)


class Pool:
    def __init__(self, a, mod, scratch):
        self.a, self.mod, self.scratch = a, mod, scratch
        self.counts = collections.Counter()
        self.sigs = set()
        self.viol = collections.OrderedDict()
        self.errors = []
        self.inconclusive = []
        self.samples = []
        self.n = 0
        self.slow = []

    def take(self, d, case):
        self.n += 1
        self.counts.update(d['counts'])
        self.sigs.update(d['sigs'])
        for mech, msg in d['viol']:
            if mech not in self.viol:
                self.viol[mech] = {'case': case, 'msg': msg, 'n': 0, 'i': d['i']}
            self.viol[mech]['n'] += 1
        if d['err']:
            self.errors.append((d['i'], d['err'], case))
        if d['notes'] and len(self.samples) < 6:
            self.samples.append({'case': case, 'observed': d['notes'][0]})
        if 't' in d:
            self.slow.append((d['t'], d['i']))

    def spawn(self, first, stride, cap, extra=()):
        cmd = [sys.executable, '-m', 'gmon.main', self.a.pid, '--worker', '--tier', self.a.tier, '--seed',
               str(self.a.seed), '--first', str(first), '--stride', str(stride), '--cases', str(self.a.cases),
               '--cap', str(cap), '--scratch', self.scratch, *extra]
        errf = open(os.path.join(self.scratch, f'stderr_{first}_{time.monotonic_ns()}'), 'w+')
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=errf, cwd=VERIF, start_new_session=True)
        os.set_blocking(p.stdout.fileno(), False)
        return {'p': p, 'buf': b'', 'cur': None, 't': time.monotonic(), 'first': first, 'done': False, 'errf': errf}

    def kill(self, w):
        try:
            os.killpg(w['p'].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        w['p'].wait()

    def pump(self, w):
        try:
            data = w['p'].stdout.read()
        except BlockingIOError:
            data = None
        if not data:
            return data == b''
        w['buf'] += data
        *lines, w['buf'] = w['buf'].split(b'\n')
        for ln in lines:
            d = json.loads(ln)
            w['t'] = time.monotonic()
            if 'start' in d:
                w['cur'] = (d['start'], d['case'])
            elif 'done' in d:
                w['done'] = True
            else:
                self.take(d, w['cur'][1] if w['cur'] else d.get('case'))
                w['last'] = d['i']
                w['cur'] = None
        return False

    def trace_hung(self, case, budget):
        fn = os.path.join(self.scratch, 'hung.json')
        with open(fn, 'w') as f:
            json.dump(case, f)
        w = self.spawn(0, 1, budget, ['--trace-case', fn])
        w['cur'] = (-1, case)
        t_end = time.monotonic() + budget
        n0 = self.n
        while time.monotonic() < t_end:
            eof = self.pump(w)
            if eof or self.n > n0:
                break
            time.sleep(0.05)
        self.kill(w)
        return self.n > n0

    def run(self):
        a = self.a
        nw = min(a.workers, max(1, a.cases))
        t_end = time.monotonic() + a.cap
        ws = [self.spawn(k, nw, a.cap) for k in range(nw)]
        hang = getattr(self.mod, 'HANG', 60)
        hung = []
        while ws:
            time.sleep(0.02)
            if os.environ.get('GMON_STOP') and set(self.viol) - set(known_findings(a.pid)):  # sensitivity measurements
                for w in ws:
                    self.kill(w)
                return
            for w in ws[:]:
                eof = self.pump(w)
                if w['done'] or eof:
                    self.kill(w)
                    ws.remove(w)
                    if not w['done']:
                        w['errf'].seek(0)
                        tail = w['errf'].read()[-1500:]
                        if w['cur'] is None:
                            self.errors.append((-1, 'worker ended unexpectedly: ' + tail, None))
                        else:
                            i, case = w['cur']
                            self.errors.append((i, 'worker died during the case: ' + tail, case))
                            if time.monotonic() < t_end and len(self.errors) < 5:
                                ws.append(self.spawn(i + nw, nw, t_end - time.monotonic()))
                    w['errf'].close()
                elif time.monotonic() - w['t'] > hang:
                    self.kill(w)
                    ws.remove(w)
                    w['errf'].close()
                    if w['cur'] is None:
                        self.errors.append((-1, 'worker does not start', None))
                        continue
                    hung.append(w['cur'])
                    left = t_end - time.monotonic()
                    if left > 5 and len(hung) < 3 and not self.viol:
                        ws.append(self.spawn(w['cur'][0] + nw, nw, left))
        for i, case in hung[:2]:
            if self.viol and i:
                break
            if not getattr(self.mod, 'HANG_IS_VIOLATION', False):
                nv = len(self.viol)
                if not self.trace_hung(case, 200) or (len(self.viol) == nv):
                    self.inconclusive.append((i, 'the case does not finish'))
                    if case is not None:
                        self.hung_case = case
            else:
                self.take({'i': i, 'viol': [['nontermination', f'no progress for {hang} s']], 'err': None, 'counts': {},
                           'sigs': [], 'notes': []}, case)


def known_findings(pid):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return {}
    with open(fn) as f:
        d = json.load(f)
    return {k['mech']: k for k in d.get('findings', []) if k['property'] == pid}


def replay(a, mod):
    from gmon import boot
    with open(a.replay) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix='gmon_replay_')
    os.environ['GMON_SCRATCH'] = scratch
    try:
        boot.load()
        ctx = Ctx(a.pid, d.get('tier', 'quick'), scratch)
        err = exec_case(mod, d['case'], ctx)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(d['case'])[:3000])
    for k, v in ctx.counts.items():
        print('  observed', k, v)
    for n in ctx.notes:
        print('  note', n)
    if err:
        print(err)
        return 2
    for mech, msg in ctx.violations:
        print(f'{mech}: {msg}')
    if ctx.violations:
        print(f'VIOLATION property={a.pid} replay={a.replay}')
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('--workers', type=int, default=max(2, (os.cpu_count() or 4)))
    ap.add_argument('--cases', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--scratch')
    ap.add_argument('--trace-case')
    a = ap.parse_args()
    a.pid = a.pid.upper()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    sys.path.insert(0, VERIF)
    if a.worker:
        worker(a)
    from gmon import boot  # noqa  (patches before anything is imported)
    boot.load()
    mod = load_check(a.pid)
    if a.replay:
        sys.exit(replay(a, mod))
    if a.case is not None:
        case = json.loads(json.dumps(mod.gen(a.case, case_rng(a.pid, a.seed, a.case), a.tier)))
        os.makedirs(os.path.join(VERIF, 'work', 'replay'), exist_ok=True)
        a.replay = os.path.join(VERIF, 'work', 'replay', f'{a.pid}_case{a.case}.json')
        with open(a.replay, 'w') as f:
            json.dump({'case': case, 'tier': a.tier}, f)
        sys.exit(replay(a, mod))
    t0 = time.monotonic()
    a.cases = a.cases or mod.CASES[a.tier]
    a.cap = a.cap or getattr(mod, 'CAP', {'quick': 240, 'thorough': 600})[a.tier]
    scratch = tempfile.mkdtemp(prefix='gmon_scratch_')
    pool = Pool(a, mod, scratch)
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(a.tier)
        pool.run()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings(a.pid)
    fresh = {m: v for m, v in pool.viol.items() if m not in known}
    for m in pool.viol:
        if m in known:
            print(f'KNOWN-FINDING: property={a.pid} {known[m]["what"]}')
    missing = [k for k in getattr(mod, 'REQUIRED', []) if not pool.counts.get(k)]
    cov = {'evaluations': pool.n, 'distinct_nontrivial': len(pool.sigs), 'rule': mod.RULE,
           'samples': pool.samples or [{'note': 'none recorded'}],
           'observed': dict(sorted(pool.counts.items())), 'cases_planned': a.cases}
    ev = {'property': a.pid, 'tier': a.tier, 'seed': a.seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.monotonic() - t0, 2),
          'violations': len(fresh)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    slow = sorted(pool.slow, reverse=True)[:3]
    print(f'{a.pid} [{a.tier}, seed {a.seed}]: {pool.n} cases, {len(pool.sigs)} distinct non-trivial, '
          f'{ev["wall_s"]} s; slowest {slow}')
    print('   observed: ' + ', '.join(f'{k}={v}' for k, v in sorted(pool.counts.items())))
    rd = os.path.join(VERIF, 'work', 'replay')
    for k, (m, v) in enumerate(fresh.items()):
        os.makedirs(rd, exist_ok=True)
        fn = os.path.join(rd, f'{a.pid}_{"".join(c if c.isalnum() else "_" for c in m)[:50]}.json')
        with open(fn, 'w') as f:
            json.dump({'property': a.pid, 'mech': m, 'msg': v['msg'], 'i': v['i'], 'seed': a.seed, 'tier': a.tier,
                       'case': v['case']}, f, indent=1)
        print(f'[{m}] x{v["n"]}: {v["msg"][-1200:]}')
        print(f'VIOLATION property={a.pid} replay={fn}')
        if k >= 9:
            break
    bad = False
    for i, e, c in pool.errors[:3]:
        print(f'HARNESS-ERROR case {i}: {e}')
        bad = True
    for i, e in pool.inconclusive[:3]:
        print(f'INCONCLUSIVE case {i}: {e}')
        bad = True
    if missing:
        print(f'INCONCLUSIVE: never observed {missing}')
        bad = True
    if pool.n == 0:
        bad = True
    sys.exit(1 if fresh else 2 if bad else 0)


if __name__ == '__main__':
    main()
