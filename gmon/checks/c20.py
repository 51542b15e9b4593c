"""User intervention files: created at random moments of simulated runs, judged at every following convergence check."""
import math
import os
import pathlib
import random
import tarfile

from gmon import oracle as orc
from gmon import scenario, simchecks
from gmon import scenario as sc
from gmon.scenario import opt_of

LEVEL = 'exploration'
TECHNIQUE = ('runtime monitoring: files are created in (and removed from) the working directory between the cycles of simulated '
             'runs; a monitor compares at every cycle what happened to each file, to the optimizer it names and to the checkpoints')
LEVEL_NOTE = 'File names, contents and moments sampled from VERIF_SEED.'
RULE = (simchecks.RULE + ' Stop files name living, ended, not yet existing and impossible optimizers, carry malformed names, are '
        'directories or vanish when touched; checkpoint files appear with and without configured checkpointing, repeatedly.')
ASSUMPTIONS = simchecks.ASSUMPTIONS + ['A stop file is looked at once in every cycle of the manager.',
                                       'Matching is by the number after the underscore.']
CASES = {'quick': 500, 'thorough': 9000}
REQUIRED = ['served', 'ignored_dead', 'ignored_unknown', 'ignored_malformed', 'ignored_directories', 'chkpt_served',
            'chkpt_unconfigured', 'chkpt_configured', 'vanished', 'several_at_once', 'stop_and_chkpt', 'from_the_start', 'waited_for_optimizer',
            'chkpt_directory', 'malformed_names_of_living']

ODD = ['STOP_', 'STOP_1_2', 'STOP_abc', 'STOP_-1', 'STOP_1.5', 'STOP_0', 'STOP_one', 'STOP__2', 'STOP_2_', 'stop_1', 'STOP1',
       'STOP_1x', 'STOP_0x1', 'STOP_None', 'STOP_1.txt', 'STOP_99999999999999999999', 'XSTOP_1', 'STOP_NaN', 'CHKPT_1', 'chkpt',
       'CHKPT.txt',
       'STOP_{}.bak', 'STOP_{}.5', 'STOP_{}~', 'STOP_{}x', 'xSTOP_{}', 'STOP{}', 'STOP_{}_', 'STOP__{}', 'stop_{}', 'STOP_-{}',
       'STOP_opt{}', 'STOP_{}.txt', 'STOP_{0}_{0}', '.STOP_{}', 'STOP_{},3']


class RacyPath(type(pathlib.Path())):
    """ Directory in which a marked file vanishes after it was seen and before it is used. """

    gone = set()

    def _seen(self, p):
        if str(p) in RacyPath.gone:
            RacyPath.gone.discard(str(p))
            if os.path.exists(str(p)):
                os.unlink(str(p))

    def glob(self, pattern):
        for p in list(super().glob(pattern)):
            self._seen(p)
            yield p

    def iterdir(self):
        for p in list(super().iterdir()):
            self._seen(p)
            yield p

    def exists(self):
        r = super().exists()
        self._seen(self)
        return r

    def is_file(self):
        r = super().is_file()
        self._seen(self)
        return r


def gen(i, rng, tier):
    c = sc.base_cfg(rng)
    c['hi'] = rng.choice([10, 30, 60])
    c['lo'] = rng.choice([1, 5])
    c['max_opts'] = rng.choice([2, 4, 6])
    if rng.random() < 0.3:
        c['endings'] = [['fin', 3], ['raise', 1], ['silent', 1]]
    c['max_steps'] = 60000
    if rng.random() < 0.4:
        c['max_jobs'] = rng.choice([3, 4, 6])
        c['opts'] = [1]
    k = rng.random()
    c['chk'] = None if k < 0.5 else {'keep': rng.choice([-1, 0, 2]), 'raise': rng.random() < 0.2,
                                     'iter': rng.choice([None, None, 10, 30])}
    if c['chk'] and c['chk']['iter'] is None:
        del c['chk']['iter']
    c['detailed'] = False
    script = []
    for _ in range(rng.choice([1, 2, 4, 7])):
        r = rng.random()
        at = rng.choice([0, 1, 2, 3, 5, 8, 13]) + rng.randint(0, 2)
        if r < 0.45:
            script.append([at, 'stop', rng.choice(['live', 'live', 'live', 'dead', 'any', 'future']), rng.randrange(10 ** 6)])
        elif r < 0.62:
            script.append([at, 'odd', rng.choice(ODD), rng.randrange(10 ** 6)])
        elif r < 0.7:
            script.append([at, 'dir', rng.choice(['live', 'live', 'chkpt']), rng.randrange(10 ** 6)])
        elif r < 0.78:
            script.append([at, 'vanish', rng.choice(['live', 'live', 'chkpt']), rng.randrange(10 ** 6)])
        else:
            script.append([at, 'chkpt', rng.choice(['empty', 'text']), 0])
        if rng.random() < 0.4:
            script.append([at, 'stop', 'live', rng.randrange(10 ** 6)])
    c['script'] = script
    c['before'] = rng.choice([None, None, None, None, ['STOP_1'], ['STOP_2', 'STOP_x'], ['CHKPT'], ['STOP_7', 'CHKPT']])
    sc.many(c, rng, 0.15)
    if c.get('many'):
        for e in c['script']:
            e[0] *= 3
        c['hi'] = 20
    return c


class Monitor:
    def __init__(self, case, d, ctx):
        self.case, self.d, self.ctx = case, d, ctx
        self.n = 0
        self.files = {}         # name -> dict(id, kind, at)
        self.asked = {}         # opt -> name, every stop file ever made for a living or future optimizer
        self.served = set()
        self.waiting = None     # CHKPT file made at the previous check
        self.n_chk_before = 0
        self.control = None
        self.frozen_control = None
        self.expected_chk = 0
        self.chk_extra = 0

    def attach(self, m, S, w):
        self.m, self.S, self.w = m, S, w
        self.control = m.checkpoint_control
        self.frozen_control = dict(vars(m.checkpoint_control)) if m.checkpoint_control else None
        w.user_points.append(self.point)
        if any(e[1] == 'vanish' for e in self.case['script']):
            m.working_dir = RacyPath(str(m.working_dir))
        RacyPath.gone = set()
        for n in self.case['before'] or []:
            self.make(n)

    def alive(self):
        ended = set()
        for o in self.w.of('opt_finish'):
            ended.add(o['opt'])
        return sorted(opt_of(a.name) for a in self.S.actors.values()
                      if a.alive and a.started and a is not self.S.main and opt_of(a.name) not in ended)

    def cond(self, o):
        try:
            v = self.m.opt_log.get_metadata(o, 'end_cond')
        except KeyError:
            return None
        return None if v is None else str(v)

    def make(self, name, kind='file', text=''):
        p = self.d / name
        if p.exists() or p.is_symlink():
            return False
        if kind == 'dir':
            p.mkdir()
        else:
            p.write_text(text)
        if kind == 'vanish':
            RacyPath.gone.add(str(p))
        self.files[name] = {'kind': kind, 'at': self.n, 'text': text}
        num = None
        if name.startswith('STOP_'):
            try:
                num = int(name[5:]) if '_' not in name[5:] else None
            except ValueError:
                num = None
        self.files[name]['id'] = num
        if num is not None and kind != 'dir':
            self.asked.setdefault(num, name)
        return True

    # ---- one cycle later
    def judge(self):
        ctx, m = self.ctx, self.m
        alive = set(self.alive())
        served_now = []
        for name, f in list(self.files.items()):
            p = self.d / name
            there = p.exists()
            o = f['id']
            if f['kind'] == 'dir':
                ctx.expect(there and p.is_dir(), 'directory removed', name)
                if name == 'CHKPT':
                    ctx.count('chkpt_directory')
                else:
                    ctx.count('ignored_directories')
                continue
            if name == 'CHKPT':
                if f['kind'] == 'vanish':
                    self.chk_extra += 1
                    ctx.count('vanished')
                else:
                    self.expected_chk += 1
                    ctx.count('chkpt_served')
                    ctx.count('chkpt_configured' if self.control else 'chkpt_unconfigured')
                if there:
                    ctx.viol('checkpoint request not served in the next cycle', self.n)
                    p.unlink()
                del self.files[name]
                continue
            if o is None:
                if not there or p.read_text() != f['text']:
                    ctx.viol('file which names no optimizer removed or changed', name)
                    del self.files[name]
                else:
                    ctx.count('ignored_malformed')
                continue
            if there:
                if f['kind'] == 'vanish' and str(p) in RacyPath.gone:
                    pass
                if o in alive and o in f.get('alive', ()) and self.cond(o) is None and o not in m.hunt_victims:
                    ctx.viol('stop file naming a living optimizer not served', f'{name} made at cycle {f["at"]}, now {self.n}')
                    p.unlink()
                    del self.files[name]
                else:
                    ctx.count('ignored_dead' if o in self.w_life() else 'ignored_unknown')
                    f['alive'] = alive
                continue
            # it is gone
            del self.files[name]
            if f['kind'] == 'vanish':
                ctx.count('vanished')
                if 'User STOP' not in str(self.cond(o)):
                    continue
            if o not in self.w_life():
                ctx.viol('file which names an unknown optimizer removed', name)
                continue
            served_now.append(o)
            if f['at'] == -1 or f.get('future'):
                ctx.count('waited_for_optimizer')
            if o not in m.hunt_victims or 'User STOP' not in str(self.cond(o)):
                ctx.viol('stop file removed without stopping its optimizer', (name, self.cond(o), sorted(m.hunt_victims)))
            self.served.add(o)
        if len(served_now) > 1:
            ctx.count('several_at_once')
        for o in range(1, m.o_counter + 1):
            if 'User STOP' in str(self.cond(o)) and o not in self.served:
                ctx.viol('optimizer stopped by a file which was not made', (o, self.asked))
                self.served.add(o)
        for o in served_now:
            self.ctx.count('served')
        ends = [e for e in self.w.of('chkpt_end')]
        begins = [e for e in self.w.of('chkpt_begin')]
        if 'iter' not in (self.case['chk'] or {}):
            lo, hi = self.expected_chk, self.expected_chk + self.chk_extra
            if not lo <= len(begins) <= hi:
                ctx.viol('number of checkpoints made', f'{len(begins)} for {self.expected_chk} requests')
                self.expected_chk = len(begins)
        else:
            ctx.expect(len(begins) >= self.expected_chk, 'number of checkpoints made', (len(begins), self.expected_chk))
        for e in ends:
            if not e['ok']:
                ctx.viol('requested checkpoint failed', e['exc'])
        if m.checkpoint_control is not self.control:
            ctx.viol('checkpoint settings changed by a request', (self.control, m.checkpoint_control))
            self.control = m.checkpoint_control
        if self.frozen_control is not None and self.control is not None:
            now = dict(vars(self.control))
            a = {k: v for k, v in self.frozen_control.items() if k != 'count'}
            b = {k: v for k, v in now.items() if k != 'count'}
            ctx.expect(a == b, 'checkpoint settings changed by a request', (a, b))

    def w_life(self):
        return {e['opt'] for e in self.w.of('opt_new')}

    def point(self, m):
        if m.t_start is None:
            return
        froz, self.S.frozen = self.S.frozen, True
        try:
            self.judge()
            made = []
            for at, what, a, r in self.case['script']:
                if at != self.n:
                    continue
                rng = random.Random(r)
                alive = [o for o in self.alive() if o not in m.hunt_victims and self.cond(o) is None]
                if what == 'odd':
                    if '{' in a:
                        if not alive:
                            continue
                        one = rng.choice(sorted(alive))
                        a = a.format(one, one)
                        self.ctx.count('malformed_names_of_living')
                    made.append(('odd', self.make(a, text='x' * (at % 3))))
                elif what == 'chkpt':
                    made.append(('chkpt', self.make('CHKPT', text='' if a == 'empty' else 'please')))
                elif a == 'chkpt':
                    made.append(('o', self.make('CHKPT', 'dir' if what == 'dir' else 'vanish')))
                else:
                    if a == 'live':
                        pool = alive
                    elif a == 'dead':
                        pool = [o for o in self.w_life() if o not in self.alive()]
                    elif a == 'future':
                        pool = [m.o_counter + 1, m.o_counter + 2]
                    else:
                        pool = list(range(0, m.o_counter + 3))
                    if not pool:
                        continue
                    o = rng.choice(sorted(pool))
                    if self.make(f'STOP_{o}', {'dir': 'dir', 'vanish': 'vanish'}.get(what, 'file')):
                        made.append(('stop', True))
                        self.files[f'STOP_{o}']['future'] = o > m.o_counter
            live = set(self.alive())
            for f in self.files.values():
                f['alive'] = live
            kinds = {k for k, ok in made if ok}
            if {'stop', 'chkpt'} <= kinds:
                self.ctx.count('stop_and_chkpt')
            if self.n == 0 and self.case['before']:
                self.ctx.count('from_the_start')
            self.n += 1
        finally:
            self.S.frozen = froz


def run(case, ctx):
    mon = None
    old = os.getcwd()
    with sc.scratch() as d:
        wd = d / 'wd'
        wd.mkdir()
        (d / 'cwd').mkdir()
        os.chdir(str(d / 'cwd'))
        mon = Monitor(case, wd, ctx)
        try:
            t = sc.run(case, wd, prepare=mon.attach)
        finally:
            os.chdir(old)
        v = orc.View(t)
        if not orc.run_ok(v, ctx):
            return
        tell(v, t, mon, ctx, case, d, wd)
    ctx.count('sessions')
    ctx.count('cycles', mon.n)
    if mon.n >= 2 and t.S.opt_steps > 3:
        ctx.sig(t.S.sig, len(v.rec), str(case['script']))
    ctx.note(cycles=mon.n, served=len(mon.served), checkpoints=mon.expected_chk, optimizers=len(v.life))


def tell(v, t, mon, ctx, case, d, wd):
    """ At the end of the run. """
    W, m = t.W, t.m
    told = {}
    for clock, o, obj in v.sends:
        if obj == 1 or (isinstance(obj, tuple) and obj and obj[0] == 1):
            told.setdefault(o, clock)
    terms = {}
    for clock, o in v.terms:
        terms.setdefault(o, clock)
    last = v.checks[-1]['clock'] if v.checks else 0
    for o in mon.served:
        if o not in told and o not in terms and v.life[o][1] == math.inf:
            ctx.viol('stopped optimizer was not told', o)
        if o not in m.hunt_victims:
            ctx.viol('stopped optimizer not among the victims', o)
        ec = str(W.final['opts'][o]['meta'].get('end_cond'))
        if 'User STOP' not in ec and 'Forced' not in ec:
            ctx.viol('user intervention not recorded at the end', (o, ec))
    for o, dd in W.final['opts'].items():
        ec = str(dd['meta'].get('end_cond'))
        if 'User STOP' in ec and o not in mon.asked:
            ctx.viol('optimizer stopped by a file which was not made', (o, ec))
    # optimizers nobody asked to stop are not disturbed before the end
    for o, clock in sorted({**terms, **told}.items()):
        first = min(x for x in (told.get(o, math.inf), terms.get(o, math.inf)))
        if first < last and o not in mon.asked and o not in v.kills:
            ctx.viol('optimizer stopped although nobody asked', (o, first, last))
    # what a stopped optimizer does afterwards is not asked again
    if case['chk'] is None:
        dirs = [d / 'cwd' / 'checkpoints']
        good = [e for e in W.of('chkpt_end') if e['ok']]
        arch = sorted(dirs[0].glob('*')) if dirs[0].exists() else []
        ctx.expect(bool(arch) == bool(good), 'archive of a requested checkpoint', (len(good), arch))
        for a in arch:
            with tarfile.open(str(a), 'r:gz') as f:
                names = {n.strip('./').split('/')[0] for n in f.getnames()}
            ctx.expect({'manager', 'optimizers', 'opt_log'} <= names, 'archive of a requested checkpoint incomplete', names)
    left = {p.name for p in wd.iterdir() if p.name.lower().startswith(('stop', 'chkpt', 'xstop'))}
    ctx.count('left_over', len(left))
