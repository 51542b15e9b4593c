"""Checkpoint names and retention against reference models, over hostile directory contents and real checkpoints."""
import datetime
import os
import random

from gmon import scenario as sc, sim as simmod, simchecks
from gmon import world as wmod
from glompo.core.checkpointing import CheckpointingControl

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: names handed out and names recognised are compared with an independent parser of naming '
             'formats; the directory is recorded (names, modification times) before and after every checkpoint built by the '
             'real manager and compared with the documented retention')
LEVEL_NOTE = 'Formats, directory contents, clock readings and runs sampled from VERIF_SEED; ages of files with equal time stamps are not ordered.'
RULE = ('(a) random formats (all keys, repeated and adjacent keys, characters special to patterns, digits, dots, archive suffix) '
        'with directories holding matching names, near misses and unrelated entries; (b) managers building series of checkpoints '
        'with retention limits over such directories; (c) simulated optimizations taking checkpoints. Non-trivial: a name or '
        'a directory judged; distinct: format and content.')
ASSUMPTIONS = ['A naming format contains no path separator.', 'Nobody else writes to the directory while a checkpoint is built.']
CASES = {'quick': 900, 'thorough': 20000}
REQUIRED = ['names', 'matched', 'not_matched', 'near_miss', 'index_over_999', 'no_count', 'fresh_dir', 'checkpoints', 'retained',
            'deleted', 'unlimited', 'others_kept', 'overwritten', 'sessions', 'run_checkpoints', 'keep0']

KEYS = {'%(date)': (8, '%Y%m%d'), '%(year)': (4, '%Y'), '%(yr)': (2, '%y'), '%(month)': (2, '%m'), '%(day)': (2, '%d'),
        '%(time)': (6, '%H%M%S'), '%(hour)': (2, '%H'), '%(min)': (2, '%M'), '%(sec)': (2, '%S'), '%(count)': (None, None)}
LITS = ['chk', '_', '-', '.', '+', '(a)', '[b]', '7', '00', ' ', '%', '%(other)', '$', '^', '\\d', '{3}', 'x.y', 'tar', '*', '?', '|']


def gen_fmt(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice(['glompo_checkpoint_%(date)_%(time)', 'chk_%(count)', 'chk_%(count).tar.gz', '%(count)', 'one', 'a%(count)',
                           '%(count)%(count)', '%(day)%(count)%(day)'])
    parts = []
    for _ in range(rng.randint(1, 6)):
        parts.append(rng.choice(list(KEYS)) if rng.random() < 0.5 else rng.choice(LITS))
    if rng.random() < 0.6 and '%(count)' not in parts:
        parts.insert(rng.randrange(len(parts) + 1), '%(count)')
    f = ''.join(parts)
    if not f.strip('. '):
        f += 'z'
    return f + '.tar.gz' if rng.random() < 0.2 else f


def tokens(fmt):
    out = []
    i = 0
    while i < len(fmt):
        for k in KEYS:
            if fmt.startswith(k, i):
                out.append((True, k))
                i += len(k)
                break
        else:
            out.append((False, fmt[i]))
            i += 1
    return out


def produce(fmt, t, index):
    return ''.join(('%03d' % index if v == '%(count)' else t.strftime(KEYS[v][1])) if key else v for key, v in tokens(fmt))


def produce_any(fmt, rng, index):
    """ Like produce, but with arbitrary digits for the keys of time. """
    return ''.join(('%03d' % index if v == '%(count)' else ''.join(rng.choice('0123456789') for _ in range(KEYS[v][0]))) if key else v
                   for key, v in tokens(fmt))


def digits(s):
    return bool(s) and all(c in '0123456789' for c in s)


def parse(fmt, name):
    """ Index of `name` under `fmt` (-1: matches, but the format has no index), None if the format cannot produce it. """
    if fmt.endswith('.tar.gz'):
        fmt = fmt[:-7]
    toks = tokens(fmt)

    def at(body):
        n_count = sum(1 for k, v in toks if k and v == '%(count)')
        fixed = sum(1 if not k else KEYS[v][0] for k, v in toks if not (k and v == '%(count)'))
        if n_count:
            if (len(body) - fixed) % n_count:
                return None
            w = (len(body) - fixed) // n_count
            if w < 3:
                return None
        elif len(body) != fixed:
            return None
        i = 0
        idx = None
        for k, v in toks:
            n = 1 if not k else w if v == '%(count)' else KEYS[v][0]
            s = body[i:i + n]
            i += n
            if not k:
                if s != v:
                    return None
            elif not digits(s):
                return None
            elif v == '%(count)':
                if (len(s) > 3 and s[0] == '0') or (idx is not None and s != idx):
                    return None
                idx = s
        return -1 if idx is None else int(idx)
    r = at(name)
    if r is None and name.endswith('.tar.gz'):
        r = at(name[:-7])
    return r


def mutate(name, rng):
    r = rng.randrange(9)
    i = rng.randrange(len(name)) if name else 0
    if r == 0:
        return name[:i] + name[i + 1:]
    if r == 1:
        return name[:i] + rng.choice('0123456789aX._') + name[i:]
    if r == 2:
        return name[:i] + rng.choice('0123456789aX._+') + name[i + 1:]
    if r == 3:
        return name + rng.choice(['\n', '.tar.gz', '.tar', '0', '.tar.gz.bak', '~'])
    if r == 4:
        return rng.choice(['0', 'x', ' ', '.']) + name
    if r == 5:
        return name.replace('.', rng.choice('xX1'), 1)
    if r == 6:
        d = [k for k, c in enumerate(name) if c in '0123456789']
        if d:
            k = rng.choice(d)
            return name[:k] + rng.choice(['\u0661', '\u0967', 'O', '\u00b2']) + name[k + 1:]
        return name.upper()
    if r == 7:
        d = [k for k, c in enumerate(name) if c in '0123456789']
        if d:
            k = rng.choice(d)
            return name[:k] + '0' + name[k:]
        return name + '0'
    return name.swapcase()


def ok_name(n):
    return n not in ('', '.', '..') and n.isascii() and '/' not in n and '\0' not in n and len(n.encode()) < 200


def rnd_time(rng):
    return datetime.datetime(rng.choice([1999, 2000, 2008, 2026, 2031]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23),
                             rng.randint(0, 59), rng.randint(0, 59), rng.randrange(10 ** 6))


def gen(i, rng, tier):
    d = {'mode': ['names', 'names', 'build', 'build', 'run'][i % 5], 'fmt': gen_fmt(rng), 'seed': rng.randrange(10 ** 9),
         'keep': rng.choice([-1, 0, 1, 1, 2, 3, 5, 50]), 'n': rng.randint(2, 7)}
    if d['mode'] == 'run':
        if '%(count)' not in d['fmt'] and rng.random() < 0.7:
            d['fmt'] = 'r%(count)' + d['fmt']
        c = sc.base_cfg(rng)
        c['chk'] = {'iter': rng.choice([2, 6, 15]), 'keep': d['keep'], 'fmt': d['fmt'], 'conv': rng.random() < 0.3}
        c['hi'] = 30
        c['lo'] = 5
        c['rounds'] = None
        c['fmax'] = rng.choice([None, 40])
        d['run'] = c
    return d


class Clock:
    """ Wall clock for `datetime.now()`; remembers what it showed. """

    def __init__(self, rng):
        self.rng = rng
        self.t = rnd_time(rng)
        self.shown = []

    def tick(self):
        self.t += datetime.timedelta(seconds=self.rng.choice([0, 0, 1, 1, 61, 3600, 86400 * 31]))

    def __call__(self):
        self.shown.append(self.t)
        return self.t


def possible(fmt, index, clock, t0):
    """ Names the format may produce now: by the clock of the harness, or the genuine one. """
    out = {produce(fmt, clock.t, index)}
    t1 = simmod.REALDT.now()
    t = t0.replace(microsecond=0)
    while t <= t1:
        out.add(produce(fmt, t, index))
        t += datetime.timedelta(seconds=1)
    return out


def next_index(fmt, listing):
    return max([p for p in (parse(fmt, n) for n in listing) if p is not None], default=-1) + 1 if '%(count)' in fmt else 0


def populate(path, fmt, rng, ctx, n, archives=False, building=True):
    path.mkdir(parents=True, exist_ok=True)
    for _ in range(n):
        idx = rng.choice([0, 1, 2, 3, 7, 10, 42, 99, 100, 998, 999, 1000, 1234])
        base = produce_any(fmt, rng, idx)
        if base.endswith('.tar.gz'):
            base = base[:-7]
        name = base + '.tar.gz' if archives or rng.random() < 0.6 else base
        if rng.random() < 0.4:
            name = mutate(name, rng)
        if rng.random() < 0.1:
            name = rng.choice(['notes.txt', 'other.tar.gz', 'best.tar.gz', 'opt_log', '.hidden', 'zz_001.tar.gz'])
        if not ok_name(name) or (building and '%(count)' not in fmt and not name.endswith('.tar.gz')):
            continue        # (the manager needs the bare name itself while it builds a checkpoint)
        p = path / name
        if p.exists():
            continue
        if rng.random() < 0.25 and not archives and not name.endswith('.tar.gz'):
            p.mkdir()
        else:
            p.write_bytes(b'x')
            ns = (1_600_000_000 + rng.randrange(10 ** 7)) * 10 ** 9 + rng.randrange(10 ** 9)
            os.utime(p, ns=(ns, ns))


def names(case, ctx, d):
    rng = random.Random(case['seed'])
    fmt = case['fmt']
    path = d / 'chk'
    ctl = CheckpointingControl(naming_format=fmt, checkpointing_dir=path)
    clock = Clock(rng)
    simmod.CLOCK[0] = clock
    try:
        for rnd in range(case['n']):
            listing = os.listdir(path) if path.exists() else []
            idx = next_index(fmt, listing)
            t0 = simmod.REALDT.now()
            name = ctl.get_name()
            ctx.count('names')
            ctx.expect(name in possible(fmt, idx, clock, t0), 'name does not follow the naming format', (fmt, name, idx, clock.t, listing))
            ctx.expect(ctl.matches_naming_format(name), 'own name not recognised', (fmt, name))
            ctx.expect((os.listdir(path) if path.exists() else []) == listing, 'naming a checkpoint changed the directory', listing)
            if not path.exists():
                ctx.count('fresh_dir')
            if '%(count)' not in fmt:
                ctx.count('no_count')
            if idx > 999:
                ctx.count('index_over_999')
            if rnd == 0:
                populate(path, fmt, rng, ctx, rng.randint(0, 8), building=False)
            else:
                if rng.random() < 0.7 and ok_name(name):
                    n = name if name.endswith('.tar.gz') else name + '.tar.gz'
                    if not (path / n).exists():
                        (path / n).write_bytes(b'')
                populate(path, fmt, rng, ctx, rng.randint(0, 3), building=False)
            clock.tick()
    finally:
        simmod.CLOCK[0] = None
    for _ in range(40):
        base = produce_any(fmt, rng, rng.choice([0, 1, 12, 123, 999, 1000, 4567, 12345]))
        if rng.random() < 0.3 and not base.endswith('.tar.gz'):
            base += '.tar.gz'
        near = False
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            base = mutate(base, rng)
            near = True
        exp = parse(fmt, base) is not None
        got = ctl.matches_naming_format(base)
        ctx.expect(bool(got) == exp, 'name recognised wrongly', (fmt, base, got, exp))
        ctx.count('matched' if exp else 'not_matched')
        ctx.count('near_miss', near)
    ctx.sig('names', fmt, case['seed'])


def listing(path):
    return {e.name: (e.stat().st_mtime_ns, e.is_file()) for e in os.scandir(path)} if path.exists() else {}


def judge(ctx, fmt, keep, before, after, new):
    """ Directory content after a successful checkpoint. """
    ctx.count('checkpoints')
    ctx.count('keep0' if keep == 0 else 'unlimited' if keep < 0 else 'kept_some')
    ctx.expect(new in after, 'new checkpoint missing', (new, sorted(after)))
    ctx.count('overwritten', new in before)
    match = {n: m for n, (m, f) in before.items() if f and n.endswith('.tar.gz') and parse(fmt, n) is not None and n != new}
    rest = set(before) - set(match) - {new}
    for n in rest:
        if n != new[:-7]:
            ctx.expect(n in after, 'something which is no checkpoint was removed', (fmt, n, sorted(before), sorted(after)))
            ctx.count('others_kept')
    ctx.expect(set(after) <= set(before) | {new}, 'something else was created', (sorted(before), sorted(after)))
    gone = {n for n in match if n not in after}
    left = {n for n in match if n in after}
    ctx.count('deleted', len(gone))
    ctx.count('retained', len(left))
    if keep < 0:
        ctx.expect(not gone, 'checkpoint removed without limit', (fmt, gone))
        return
    ctx.expect(len(left) == min(keep, len(match)), 'wrong number of checkpoints retained', (fmt, keep, sorted(match), sorted(left)))
    for g in gone:
        for l in left:
            ctx.expect(match[g] <= match[l], 'a newer checkpoint was removed and an older one kept', (fmt, keep, g, match[g], l, match[l]))


def watch(m, ctx, clock, rng, count=None):
    """ Records and judges every checkpoint of a manager. """
    orig = m.checkpoint
    ctl = m.checkpoint_control
    path = ctl.checkpointing_dir
    fmt, keep = ctl.naming_format, ctl.keep_past

    def checkpoint(*a, **k):
        before = listing(path)
        idx = next_index(fmt, before)
        t0 = simmod.REALDT.now()
        tv = simmod.CURRENT.now if simmod.CURRENT else 0
        r = orig(*a, **k)
        after = listing(path)
        cand = possible(fmt, idx, clock, t0)
        if simmod.CLOCK[0] is None:
            for s in range(int(tv), int(simmod.CURRENT.now) + 1):
                cand.add(produce(fmt, simmod.REALDT.fromtimestamp(s), idx))
        cand = {n if n.endswith('.tar.gz') else n + '.tar.gz' for n in cand}
        new = [n for n in after if n in cand and (n not in before or before[n][0] != after[n][0])]
        if not ctx.expect(len(new) == 1, 'no checkpoint of the expected name', (fmt, sorted(cand), sorted(before), sorted(after))):
            return r
        judge(ctx, fmt, keep, before, after, new[0])
        if count:
            ctx.count(count)
        # let checkpoints differ in age, not always in the order of their names
        ns = max([m_ for m_, _ in after.values()] + [0]) + rng.randint(1, 10 ** 9)
        os.utime(path / new[0], ns=(ns, ns))
        return r
    m.checkpoint = checkpoint


def build(case, ctx, d):
    rng = random.Random(case['seed'])
    fmt = case['fmt']
    c = dict(sc.DEFAULT, seed=1, chk=None)
    S = simmod.Sim(1, 'mixed', 40000, True, 6)
    clock = Clock(rng)
    w = wmod.World(S, sc.Plans(1))
    sc.set_world(w)
    path = d / 'chk'
    populate(path, fmt, rng, ctx, rng.randint(0, 8), rng.random() < 0.7)
    with S:
        m = sc.build(c, d, w, chk=CheckpointingControl(naming_format=fmt, checkpointing_dir=path, keep_past=case['keep']))
        watch(m, ctx, clock, rng)
        simmod.CLOCK[0] = clock
        try:
            for _ in range(case['n']):
                m.checkpoint()
                clock.tick()
                if rng.random() < 0.3:
                    populate(path, fmt, rng, ctx, 1, True)
        finally:
            simmod.CLOCK[0] = None
    ctx.sig('build', fmt, case['seed'], case['keep'])


def session(case, ctx):
    rng = random.Random(case['seed'])

    def prepare(m, S, w):
        populate(m.checkpoint_control.checkpointing_dir, case['fmt'], rng, ctx, rng.randint(0, 6), True)
        watch(m, ctx, Clock(rng), rng, 'run_checkpoints')
    simchecks.run(case['run'], ctx, lambda v, cx: None, prepare=prepare)


def run(case, ctx):
    if case['mode'] == 'run':
        session(case, ctx)
    else:
        with sc.scratch() as d:
            (names if case['mode'] == 'names' else build)(case, ctx, d)
    ctx.note(mode=case['mode'], fmt=case['fmt'], keep=case['keep'])
