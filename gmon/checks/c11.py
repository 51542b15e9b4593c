"""The results queue under concurrent producers: deterministic fine-grained interleavings, real threads, real processes."""
import multiprocessing
import queue
import random
import sys
import threading
import time
from multiprocessing.managers import SyncManager

from gmon import sim as simmod
from glompo.core import _backends
from glompo.core._backends import ChunkingQueue

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: histories of insertions (accepted, refused, cut short) and of chunks obtained are recorded at '
             'the client side and checked for exactly-once delivery, order per producer, sizes and progress; the real queue runs '
             'under a deterministic scheduler switching at every line of its code, under real threads with injected delays, and '
             'in the real server process')
LEVEL_NOTE = 'Schedules sampled from VERIF_SEED; in the deterministic mode switches occur at every line of the queue class and at every lock.'
RULE = ('1..5 producers with 1..60 operations each (non-blocking caching puts as done by optimizers, blocking puts, refusing puts '
        'with retry or giving up, puts with timeout, explicit caching, flushes), queue limits 1..10 (or none), chunk limits 1..10, a '
        'consumer reading in bursts and flushing like the manager; in part producers are killed. Non-trivial: the queue was full '
        'or cached at least once; distinct: order of delivery.')
ASSUMPTIONS = ['A flush which may block is only made by a producer, or by the consumer when nobody else inserts.',
               'Condition variables and locks of the standard library work.']
CASES = {'quick': 700, 'thorough': 20000}
REQUIRED = ['sim', 'threads', 'processes', 'delivered', 'refused', 'retried', 'caching', 'chunks_of_many', 'flushed_by_consumer',
            'explicitly_cached', 'killed_producers', 'lines_interleaved', 'full_seen', 'unbounded']


def gen(i, rng, tier):
    mode = 'processes' if i % 100 == 7 else 'threads' if i % 5 == 4 else 'sim'
    prods = []
    limit = rng.choice([1, 1, 2, 3, 5, 10, 0])
    kinds = rng.choice([['nowait'], ['nowait'], ['nowait', 'put'], ['put', 'putnb'], ['nowait', 'putnb', 'putt', 'flushnb'],
                        ['nowait', 'put', 'putnb', 'putt', 'incache', 'flush', 'flushnb', 'has'], ['putnb'], ['incache', 'putnb', 'flush']])
    for p in range(rng.randint(1, 5)):
        ops = []
        for k in range(rng.randint(1, 60)):
            op = rng.choice(kinds)
            ops.append([op, rng.choice(['retry', 'drop'])])
            if rng.random() < 0.05:
                ops.append(['sleep', rng.choice([0.01, 1.5])])
        prods.append(ops)
    return {'mode': mode, 'limit': limit, 'chunk': rng.choice([1, 1, 2, 3, 5, 10]), 'prods': prods, 'seed': rng.randrange(10 ** 9),
            'reader': rng.choice(['eager', 'lazy', 'bursts', 'polls']), 'trace': rng.random() < 0.5,
            'kill': mode == 'sim' and rng.random() < 0.15,
            'policy': rng.choice(['mixed', 'favour', 'slow_opts', 'fast_opts', 'rare_burst', 'random'])}


class Rec:
    def __init__(self, n):
        self.ok = [[] for _ in range(n)]         # items accepted, in order
        self.refused = [set() for _ in range(n)]
        self.pending = [None] * n
        self.cached = set()
        self.done = [False] * n
        self.fast = False
        self.full = 0
        self.err = []


def produce(q, p, ops, rec, sleep, ctx=None):
    n = 0
    try:
        for op, how in ops:
            if op == 'sleep':
                sleep(how)
                continue
            if op == 'has':
                q.has_cache()
                continue
            if op in ('flush', 'flushnb'):
                try:
                    q.flush(op == 'flush')
                except queue.Full:
                    pass
                continue
            item = (p, n)
            n += 1
            rec.pending[p] = item
            tries = 0
            while True:
                try:
                    if op == 'nowait':
                        q.put_nowait(item)
                    elif op == 'put':
                        q.put(item)
                    elif op == 'putnb':
                        q.put(item, False)
                    elif op == 'putt':
                        q.put(item, True, 0.01)
                    elif op == 'incache':
                        rec.cached.add(item)
                        q.put_incache(item)
                    rec.ok[p].append(item)
                    break
                except queue.Full:
                    rec.full += 1
                    tries += 1
                    if how == 'drop' or tries > 20:
                        rec.refused[p].add(item)
                        break
                    sleep(0.01)
            rec.pending[p] = None
        rec.done[p] = True
    except Exception as e:
        rec.err.append(repr(e))
        raise


def judge(case, rec, chunks, sizes, ctx, killed=()):
    flat = [tuple(i) for c in chunks for i in c]
    n = len(case['prods'])
    seen = set()
    for i in flat:
        ctx.expect(i not in seen, 'an item was obtained twice', (i, [c for c in chunks if i in [tuple(j) for j in c]]))
        seen.add(i)
    ctx.count('delivered', len(flat))
    ctx.count('refused', sum(map(len, rec.refused)))
    ctx.count('retried', rec.full)
    ctx.count('explicitly_cached', len(rec.cached))
    for p in range(n):
        got = [i for i in flat if i[0] == p]
        ctx.expect(got == sorted(got), 'items of one producer obtained in another order than inserted', (p, got))
        gone = [i for i in rec.ok[p] if i not in seen]
        ctx.expect(not gone, 'an item was never obtained', (p, gone))
        ctx.expect(not (rec.refused[p] & seen), 'a refused item was obtained', (p, sorted(rec.refused[p] & seen)))
    allowed = {i for p in range(n) for i in rec.ok[p]} | {rec.pending[p] for p in killed}
    ctx.expect(seen <= allowed | set().union(*rec.refused), 'something was obtained which was not inserted', sorted(seen - allowed)[:5])
    for c in chunks:
        extra = sum(tuple(i) in rec.cached for i in c)
        ctx.expect(len(c) <= case['chunk'] + extra, 'chunk larger than its limit', (len(c), case['chunk'], extra))
        ctx.expect(len(c) > 0, 'empty chunk obtained', ())
        ctx.count('chunks_of_many', len(c) > 1)
    if case['limit']:
        ctx.expect(max(sizes, default=0) <= case['limit'], 'more chunks than the queue may hold', (max(sizes, default=0), case['limit']))
        ctx.count('full_seen', case['limit'] in sizes)
    else:
        ctx.count('unbounded')
    ctx.expect(not rec.err, 'inserting failed', rec.err[:2])
    if rec.full or any(len(c) > 1 for c in chunks) or case['limit'] in sizes:
        ctx.sig(hash(tuple(flat)))


def consume(q, case, rng, alive, sleep, sizes, chunks, ctx, rec):
    """ Reads like the manager does until all producers have ended, then drains. """
    def take(block, timeout=None):
        c = q.get(block, timeout)
        chunks.append(list(c))
        return c
    lazy = case['reader'] == 'lazy'
    while alive():
        sizes.append(q.qsize())
        if lazy and rng.random() < 0.5 or case['reader'] == 'bursts' and rng.random() < 0.05:
            sleep(rng.choice([0.01, 0.5] if case['reader'] == 'bursts' else [0.003, 0.02]))
            sizes.append(q.qsize())
        empty = case['reader'] == 'polls' and rng.random() < 0.4
        try:
            if not empty:
                take(True, 1)
        except queue.Empty:
            empty = True
        if empty:
            if q.has_cache():
                try:
                    q.flush(block=False)
                    ctx.count('flushed_by_consumer')
                except queue.Full:
                    pass
    while True:
        while not q.empty():
            take(False)
        if not q.has_cache():
            break
        ctx.count('caching')
        q.flush()
    if not q.empty():
        ctx.viol('queue not empty after everything was flushed', ())


def line_tracer(sim, ctx):
    fn = _backends.__file__.rstrip('c')
    n = [0]

    def local(frame, event, arg):
        if event == 'line' and sim.me() is not None and not sim.closing:
            n[0] += 1
            ctx.count('lines_interleaved')
            sim.point('line')
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename == fn else None
    return tracer


def simulated(case, ctx):
    S = simmod.Sim(case['seed'], case['policy'], 200000, True, 6)
    n = len(case['prods'])
    rec = Rec(n)
    rng = random.Random(case['seed'])
    chunks, sizes = [], []
    killed = []
    SyncManager.register('ChunkingQueue', ChunkingQueue)
    with S:
        q = multiprocessing.Manager().ChunkingQueue(case['limit'], case['chunk'])
        tracer = line_tracer(S, ctx) if case['trace'] else None

        def body(p, ops):
            sys.settrace(tracer)
            try:
                produce(q, p, ops, rec, time.sleep)
            finally:
                sys.settrace(None)

        procs = []
        for p, ops in enumerate(case['prods']):
            pr = multiprocessing.Process(target=body, args=(p, ops), name=f'Opt{p + 1}')
            procs.append(pr)
            pr.start()
        victim = rng.randrange(n) if case['kill'] else None
        when = rng.randint(1, 30)
        cnt = [0]

        def alive():
            cnt[0] += 1
            if victim is not None and cnt[0] == when and procs[victim].is_alive():
                procs[victim].terminate()
                killed.append(victim)
                ctx.count('killed_producers')
            return any(pr.is_alive() or pr._a.in_server for pr in procs)
        sys.settrace(tracer)
        try:
            consume(q, case, rng, alive, time.sleep, sizes, chunks, ctx, rec)
        except simmod.Stuck as e:
            sys.settrace(None)
            ctx.viol('a producer or the consumer is blocked forever', (str(e), S.stuck, [(pr.name, rec.pending[k]) for k, pr in enumerate(procs) if pr._a.alive], len(chunks), getattr(S, 'stuck_stack', '')[-1500:]))
            return
        finally:
            sys.settrace(None)
    ctx.count('sim')
    judge(case, rec, chunks, sizes, ctx, killed)


def threaded(case, ctx):
    n = len(case['prods'])
    rec = Rec(n)
    rng = random.Random(case['seed'])
    q = ChunkingQueue(case['limit'], case['chunk'])
    chunks, sizes = [], []
    fn = _backends.__file__.rstrip('c')
    old = sys.getswitchinterval()

    def tracer_for(seed):
        r = random.Random(seed)

        def local(frame, event, arg):
            if event == 'line' and r.random() < 0.05:
                time.sleep(r.choice([0, 0, 0.0005]))
            return local
        return lambda frame, event, arg: local if frame.f_code.co_filename == fn else None

    def nap(s):
        time.sleep(min(s, 0.01))

    def body(p, ops):
        if case['trace']:
            sys.settrace(tracer_for(case['seed'] + p))
        try:
            produce(q, p, ops, rec, nap)
        except Exception:
            pass
        finally:
            sys.settrace(None)
    stuck = []
    ts = [threading.Thread(target=body, args=(p, ops), daemon=True) for p, ops in enumerate(case['prods'])]
    last = [time.monotonic(), -1]

    def alive():
        state = (len(chunks), sum(map(len, rec.ok)), rec.full)
        if state != last[1]:
            last[:] = [time.monotonic(), state]
        elif time.monotonic() - last[0] > 90:
            stuck.append(1)
            return False
        return any(t.is_alive() for t in ts)
    sys.setswitchinterval(1e-5)
    try:
        for t in ts:
            t.start()
        c = threading.Thread(target=consume, args=(q, dict(case), rng, alive, nap, sizes, chunks, ctx, rec), daemon=True)
        c.start()
        c.join(200)
    finally:
        sys.setswitchinterval(old)
    ctx.count('threads')
    if stuck or c.is_alive():
        ctx.viol('a producer or the consumer is blocked forever', (rec.pending, len(chunks)))
        return
    judge(case, rec, chunks, sizes, ctx)


def _child(q, p, ops, res):
    rec = Rec(p + 1)
    try:
        produce(q, p, ops, rec, lambda s: time.sleep(min(s, 0.01)))
    finally:
        res.send((rec.ok[p], list(rec.refused[p]), sorted(rec.cached), rec.full, rec.err))


def processes(case, ctx):
    n = len(case['prods'])
    rec = Rec(n)
    rng = random.Random(case['seed'])
    SyncManager.register('ChunkingQueue', ChunkingQueue)
    chunks, sizes = [], []
    with multiprocessing.Manager() as man:
        q = man.ChunkingQueue(case['limit'], case['chunk'])
        pipes = [multiprocessing.Pipe(False) for _ in range(n)]
        ps = [multiprocessing.Process(target=_child, args=(q, p, ops, pipes[p][1]), daemon=True) for p, ops in enumerate(case['prods'])]
        for p in ps:
            p.start()
        got = [None] * n

        def alive():
            for k in range(n):
                if got[k] is None and pipes[k][0].poll():
                    got[k] = pipes[k][0].recv()
            return any(g is None for g in got)
        consume(q, case, rng, alive, lambda s: time.sleep(min(s, 0.01)), sizes, chunks, ctx, rec)
        for p in ps:
            p.join()
    for k, g in enumerate(got):
        rec.ok[k] = g[0]
        rec.refused[k] = set(map(tuple, g[1]))
        rec.cached |= set(map(tuple, g[2]))
        rec.full += g[3]
        rec.err += g[4]
    ctx.count('processes')
    judge(case, rec, chunks, sizes, ctx)


def run(case, ctx):
    {'sim': simulated, 'threads': threaded, 'processes': processes}[case['mode']](case, ctx)
    ctx.note(mode=case['mode'], limit=case['limit'], chunk=case['chunk'], producers=len(case['prods']))
