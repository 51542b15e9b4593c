import hashlib
import math
import tarfile
import types

from gmon import chain, faults, oracle, scenario as sc, sim as simmod, simchecks
from gmon.world import SimTask, UnpicklableTask, ScriptOpt
from glompo.core.manager import GloMPOManager

LEVEL = 'fault_enumeration'
RULE = ('Simulated optimization in which one file-system, archive or pickling operation of one or more checkpoints fails: '
        'the n-th operation (n drawn from 1..45, covering every operation of a checkpoint), an optimizer failing to save '
        'itself or disappearing while saving, an object which cannot be serialised, or a task which cannot be saved. '
        'Non-trivial: a failure was injected into a checkpoint; distinct: failing operation, moment and interleaving.')
TECHNIQUE = ('runtime monitoring with fault injection: the operations of every checkpoint are made to fail one by one and '
             'the directory, the archives, the history and the run are compared with their state before')
ASSUMPTIONS = simchecks.ASSUMPTIONS
CASES = {'quick': 420, 'thorough': 7000}
REQUIRED = ['failures', 'op:replace', 'failed_checkpoints', 'completed_after_failure', 'archives_loaded', 'overwriting',
            'task_not_serialisable', 'raised', 'interrupted']


def gen(i, rng, tier):
    c = sc.base_cfg(rng)
    c['hi'] = rng.choice([20, 40])
    c['max_opts'] = rng.choice([2, 4, 6])
    c['max_jobs'] = rng.choice([1, 2, 3, 4])
    c['opts'] = [1]
    c['status'] = 600
    c['rounds'] = None
    c['fmax'] = rng.choice([None, None, 60])
    c['share'] = False
    c['chk'] = {'iter': rng.choice([3, 10, 20]), 'conv': rng.random() < 0.3, 'keep': rng.choice([-1, -1, 0, 1, 2]),
                'raise': rng.random() < 0.15, 'fmt': rng.choice(['chk_%(count)', 'chk_%(count)', 'chk.v1_%(count)',
                                                                 'same', 'a_%(count)_%(year)', 'same.tar.gz']),
                'force': rng.random() < 0.1}
    c['faults'] = [[rng.randint(1, 4), rng.randint(1, 45), rng.choice(['os', 'perm', 'tar'])]
                   for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.35:  # aimed at one kind of operation instead of a position
        c['faults'] = [[rng.randint(1, 4), rng.choice([['replace', 1], ['replace', 1], ['unlink', rng.randint(1, 2)],
                                                       ['mkdir', 1], ['tar.addfile', rng.randint(1, 6)],
                                                       ['dill.dump', rng.randint(1, 6)], ['open', rng.randint(1, 9)]]),
                        rng.choice(['os', 'perm', 'tar', 'zip'])]]
        if rng.random() < 0.4 and c['faults'][0][1][0] != 'unlink':   # the user interrupts the run at this moment
            c['faults'][0][2] = 'int'
        if c['faults'][0][1][0] == 'replace' or rng.random() < 0.3:
            c['chk']['fmt'] = rng.choice(['same', 'same.tar.gz'])
            c['chk']['iter'] = 3
            c['faults'][0][0] = rng.randint(2, 4)
    c['task'] = rng.choice(['plain', 'plain', 'plain', 'none', 'save', 'badsave', 'typeerror'])
    c['opt_fail'] = rng.choice([None, None, None, rng.randint(1, 4)])
    c['bad_attr'] = rng.choice([None] * 6 + [rng.randint(1, 3)])
    return c


class SavingTask(UnpicklableTask):
    def checkpoint_save(self, path):
        (path / 'mytask').write_text('ok')


class BadSavingTask(UnpicklableTask):
    def checkpoint_save(self, path):
        raise ValueError('cannot save myself')


class TypeErrorTask(SimTask):
    def __reduce__(self):
        raise TypeError('cannot pickle this object')

    def __deepcopy__(self, memo):
        return self


TASKS = {'plain': SimTask, 'none': UnpicklableTask, 'save': SavingTask, 'badsave': BadSavingTask,
         'typeerror': TypeErrorTask}


class Unserialisable:
    def __reduce__(self):
        raise TypeError('no')


def listing(d):
    if not d.exists():
        return {}
    return {f.name: (hashlib.sha256(f.read_bytes()).hexdigest() if f.is_file() else 'dir') for f in d.iterdir()}


def run(case, ctx):
    faults.install()
    INJ = faults.INJ
    with sc.scratch() as d:
        chkdir = d / 'chk'
        INJ.root = str(d)
        obs = []

        def prepare(m, S, w):
            m.opt_log.build_traj_plot = True
            INJ.who = lambda: S.me() is S.main
            if case['opt_fail']:
                w.fail_at['opt_save'] = {'at': [case['opt_fail']], 'exc': RuntimeError}
            inner = m.checkpoint
            n = [0]

            def checkpoint(self):
                n[0] += 1
                before = listing(chkdir)
                f = [x for x in case['faults'] if x[0] == n[0]]
                bad = case['bad_attr'] == n[0]
                if bad:
                    m.x0_generator.extra = Unserialisable()
                if f:
                    INJ.arm(f[0][1], f[0][2])
                ok = True
                try:
                    inner()
                except (Exception, KeyboardInterrupt) as e:
                    ok = False
                    exc = e
                fired = INJ.disarm()
                if bad:
                    del m.x0_generator.extra
                w.log('chk_obs', n=n[0], fired=fired, before=before, after=listing(chkdir), raised=not ok, bad=bad,
                      interrupted=not ok and isinstance(exc, KeyboardInterrupt),
                      hist=set(m.checkpoint_history))
                if not ok:
                    raise exc

            m.checkpoint = types.MethodType(checkpoint, m)

        with open('/dev/null'):
            t = sc.run(case, d, task=TASKS[case['task']](), prepare=prepare)
        INJ.on = False
        v = oracle.View(t)
        ctx.count('sessions')
        if not oracle.run_ok(v, ctx, crash_ok=True):
            return
        W = t.W
        obs = W.of('chk_obs')
        keep = case['chk']['keep']
        inj = W.of('injected')
        failed_before = False
        for o in obs:
            new = {n: h for n, h in o['after'].items() if o['before'].get(n) != h}
            if o['fired'] and o['fired'].split() == ['unlink', '_overwriting_chkpt.tar.gz']:
                # the failure concerned the removal of the superseded archive itself
                new.pop('_overwriting_chkpt.tar.gz', None)
                o['after'].pop('_overwriting_chkpt.tar.gz', None)
                for later in obs:
                    later['before'].pop('_overwriting_chkpt.tar.gz', None)
            gone = set(o['before']) - set(o['after'])
            changed = [n for n in new if n in o['before']]
            ctx.count('checkpoints')
            if o['fired']:
                ctx.count('failures')
                ctx.count('op:' + o['fired'].split()[0])
                ctx.sig(o['fired'], o['n'], t.S.sig)
            rubbish = [n for n in o['after'] if not n.endswith('.tar.gz') or o['after'][n] == 'dir' or n.startswith('_')]
            ctx.expect(not rubbish, 'rubbish left by a checkpoint', (rubbish, o['fired']))
            done = bool(new)
            ctx.expect(len(new) <= 1, 'several archives from one checkpoint', sorted(new))
            if not done:
                ctx.count('failed_checkpoints')
                ctx.expect(not gone, 'earlier checkpoint lost by a failed one', (sorted(gone), o['fired']))
                failed_before = True
            else:
                if failed_before:
                    ctx.count('completed_after_failure')
                if changed:
                    ctx.count('overwriting')
                if keep < 0:
                    ctx.expect(not gone, 'earlier checkpoint lost', (sorted(gone), o['fired']))
                elif not o['fired']:
                    ctx.expect(len(o['after']) <= keep + 1, 'retention', (sorted(o['after']), keep))
                else:
                    ctx.expect(len(o['after']) >= min(keep + 1, len(set(o['before']) | set(new))),
                               'earlier checkpoint lost', (sorted(gone), o['fired']))
            if not done and not (o['fired'] or o['bad'] or inj):
                ctx.viol('checkpoint failed without cause', (o, [w[-500:] for w in t.warn][-3:]))
            if o['interrupted']:
                ctx.count('interrupted')
                ctx.expect(v.end == 'User Interrupt', 'interrupt not reported', v.end)
            elif o['raised']:
                ctx.count('raised')
                ctx.expect(case['chk']['raise'], 'failure of a checkpoint ended the run', o['fired'])
                ctx.expect(v.end == 'GloMPO Crash', 'failed checkpoint not reported', v.end)
            elif not done and case['chk']['raise'] and not o['interrupted']:
                ctx.viol('failure of the checkpoint not reported although asked for', o)
            hist = {str(h).rsplit('/', 1)[-1] for h in o['hist']}
            if keep < 0:
                ctx.expect(hist <= set(o['after']), 'history lists checkpoints which do not exist',
                           (sorted(hist - set(o['after'])), o['fired']))
                ctx.expect(set(o['after']) <= hist, 'checkpoint missing from the history', (sorted(o['after']), sorted(hist)))
            else:
                ctx.expect(set(o['after']) <= hist, 'checkpoint missing from the history', (sorted(o['after']), sorted(hist)))
        if case['task'] in ('none', 'badsave', 'save', 'typeerror') and obs:
            ctx.count('task_not_serialisable')
        # the run is not disturbed
        if v.end in ('GloMPO Crash', 'User Interrupt') and not any(o['raised'] for o in obs):
            oracle.run_ok(v, ctx)
            return
        if v.end not in ('GloMPO Crash', 'User Interrupt'):
            oracle.c01(v, ctx)
            oracle.c05(v, ctx)
            if v.end == oracle.EXHAUSTED:
                for o in v.life:
                    if o in v.kills or inj:
                        continue
                    made = len([e for e in W.evals if e['opt'] == o])
                    ctx.expect(made == oracle.planned(W.plans(o)), 'optimizer did not carry on after the checkpoint', o)
        # every archive can be loaded
        for k, f in enumerate(sorted(chkdir.glob('*.tar.gz')) if chkdir.exists() else []):
            if k > 3:
                break
            try:
                with tarfile.open(f) as tf:
                    names = set(tf.getnames())
            except (tarfile.TarError, OSError, EOFError) as e:
                ctx.viol('unreadable archive', (f.name, repr(e), [o['fired'] for o in obs if o['fired']]))
                continue
            if case['task'] == 'save':
                ctx.expect('mytask' in names or any(o['fired'] for o in obs), 'files of the task missing', names)
            ctx.expect(not (case['task'] in ('none', 'badsave', 'typeerror') and 'task' in names),
                       'partial file of a task which cannot be serialised', names)
            S = simmod.Sim(1)
            from gmon.world import World, set_world
            from gmon.chain import mk_plans
            w2 = World(S, mk_plans(case))
            set_world(w2)
            with S:
                m = GloMPOManager()
                try:
                    m.load_checkpoint(f, task=SimTask())
                    ctx.count('archives_loaded')
                    ctx.expect(m.is_initialised, 'manager not initialised by a checkpoint', f.name)
                except Exception as e:
                    import traceback
                    ctx.viol('checkpoint cannot be loaded', traceback.format_exc()[-900:])
        ctx.note(checkpoints=len(obs), fired=[o['fired'] for o in obs if o['fired']], end=str(v.end)[:40])
