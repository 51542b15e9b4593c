"""Oracles over the recorded events of simulated sessions.  They judge only what is visible from outside: evaluations made
by the objective, iterations put in the log, questions asked to the user's components, signals sent, optimizers started
and ended, and what the user is given at the end."""
import math

from gmon.world import dec, same, enc
from gmon.scenario import opt_of

EXHAUSTED = 'No optimizers alive, spawning stopped.'
NORMAL = ('Optimizer convergence', 'Normal termination (Reason unknown)')


def end_cond(t):
    return None if t.result is None or not t.result.stats else t.result.stats.get('end_cond')


class View:
    def __init__(self, t):
        self.t, self.S, self.W, self.c = t, t.S, t.W, t.c
        W = t.W
        s = t.session
        self.rec = [r for r in W.rec if r['session'] == s]
        self.evals = [e for e in W.evals if e['session'] == s]
        self.new = {e['opt']: e for e in W.of('opt_new', s)}
        self.checks = [e for e in W.of('check', s) if e['started']]
        self.checked = [e for e in W.of('checked', s) if e['started']]
        self.hunts = W.of('hunt', s)
        self.kills = {}
        for h in self.hunts:
            if h['res'] and h['victim'] not in self.kills:
                self.kills[h['victim']] = h
        self.end = end_cond(t)
        self.pipe = {e['pipe']: o for o, e in self.new.items()}
        self.pipe.update({e['pipe']: e['opt'] for e in W.of('opt_begin', s)})
        self.life = {}                   # opt -> [start, end]
        self.sends = []                  # (clock, opt, obj)
        self.terms = []
        for clock, kind, d in t.S.events:
            if kind == 'opt_start':
                self.life[opt_of(d['opt'])] = [clock, math.inf]
            elif kind in ('opt_exit', 'opt_dead'):
                o = opt_of(d['opt'])
                if o in self.life and self.life[o][1] == math.inf:
                    self.life[o][1] = clock
            elif kind == 'send' and d['by'] == 'M' and d['peer'] in self.pipe:
                self.sends.append((clock, self.pipe[d['peer']], d['obj']))
            elif kind == 'terminate':
                self.terms.append((clock, opt_of(d['opt'])))
        self.end_clock = self.checked[-1]['clock'] if self.checked else 0

    def live_at(self, clock):
        return [o for o, (a, b) in self.life.items() if a <= clock < b]


def run_ok(v, ctx, crash_ok=False):
    """ The session returned and did not fail. """
    t = v.t
    if t.stuck:
        ctx.viol(f'stuck:{t.stuck}', getattr(t.S, 'stuck_stack', '')[-1200:])
        return False
    if t.exc is not None:
        import traceback
        ctx.viol(f'start_manager raised {type(t.exc).__name__}',
                 ''.join(traceback.format_exception(type(t.exc), t.exc, t.exc.__traceback__))[-1400:])
        return False
    if not crash_ok and v.end in ('GloMPO Crash', 'User Interrupt'):
        ctx.viol('manager crashed', ' '.join(w[-1200:] for w in t.warn if 'Traceback' in w))
        return False
    return True


# ---- C01 -------------------------------------------------------------------------------------------------------------
def c01(v, ctx, base=None, complete=True):
    """ base: opt -> number of evaluations already recorded before this session. """
    t, W = v.t, v.W
    base = base or {}
    per = {}
    evs = {}
    for e in W.evals:
        evs[(e['opt'], e['seq'])] = e
    for r in v.rec:
        o = r['opt']
        if r['xo'] != o:
            ctx.viol('recorded under another optimizer', r)
            continue
        e = evs.get((o, r['seq']))
        if e is None or e['begin'] > r['clock']:
            ctx.viol('recorded an evaluation which was not made', r)
            continue
        if not same(e['fx'], r['fx']) or r['x'] != [float(o), float(r['seq']), enc(e['fx'])]:
            ctx.viol('recorded parameters or value differ', (r, e))
        k = per.setdefault(o, base.get(o, 0))
        if r['seq'] != k:
            ctx.viol('repeated record' if r['seq'] < k else 'record missing or out of order',
                     f'opt {o}: expected evaluation {k}, recorded {r["seq"]}')
            per[o] = r['seq'] + 1
        else:
            per[o] = k + 1
    n = len(v.rec) + sum(base.values())
    ctx.expect(t.m.f_counter == n, 'evaluation count', f'f_counter {t.m.f_counter}, recorded {n}')
    if t.result is not None and t.result.stats and 'f_evals' in t.result.stats:
        ctx.expect(t.result.stats['f_evals'] == n, 'reported evaluation count', f'{t.result.stats} vs {n}')
    if W.final is not None and v.rec:
        ctx.expect(W.final['len'] == n, 'length of the log', f'{W.final["len"]} vs {n}')
        ids = []
        have = 0
        for o, d in W.final['opts'].items():
            if d['call_id'] is None or not len(d['call_id']):
                continue
            have += 1
            ids += [int(i) for i in d['call_id']]
            mine = [r for r in W.rec if r['opt'] == o]
            ctx.expect(all(int(a) < int(b) for a, b in zip(d['call_id'], d['call_id'][1:])),
                       'evaluation numbers not increasing', (o, d['call_id']))
            ctx.expect([[float(i) for i in x] for x in d['x']] == [r['x'] for r in mine][-len(d['x']):],
                       'log history: parameters', (o, d['x'][:5], mine[:5]))
            ctx.expect(len(d['fx']) <= len(mine) and
                       all(same(float(a), r['fx']) for a, r in zip(d['fx'], mine[len(mine) - len(d['fx']):])),
                       'log history: values', (o, d['fx'][:5], mine[:5]))
        ctx.count('histories', have)
        ctx.expect(len(set(ids)) == len(ids), 'evaluation number used twice', ids)
        ctx.expect(all(1 <= i <= n for i in ids), 'evaluation number out of range', ids)
        if len(ids) == n:
            ctx.count('complete_numberings')
            ctx.expect(sorted(ids) == list(range(1, n + 1)), 'evaluation numbers with gaps', sorted(ids))
            # the number is the position at which it was recorded
            pos = {}
            for i, r in enumerate(v.rec):
                pos.setdefault(r['opt'], []).append(i + 1 + sum(base.values()))
            for o, d in W.final['opts'].items():
                if d['call_id'] is not None and o in pos and not base:
                    ctx.expect([int(i) for i in d['call_id']] == pos[o], 'evaluation number differs from its position',
                               (o, d['call_id'], pos[o]))
    if complete and v.end == EXHAUSTED:
        ctx.count('exhausted_runs')
        for e in v.evals:
            if e['delivered'] and e['opt'] not in v.kills and e['seq'] >= per.get(e['opt'], base.get(e['opt'], 0)):
                ctx.viol('evaluation lost', f'opt {e["opt"]} evaluation {e["seq"]} of {e}')
                break
    ctx.count('records', len(v.rec))
    ctx.count('evaluations', len(v.evals))


# ---- C02 -------------------------------------------------------------------------------------------------------------
def best_of(vals):
    b = math.inf
    for f in vals:
        if f == f and f < b:
            b = f
    return b


def judge_best(rec, x, fx, origin, ctx, where):
    """ rec: the records so far (whole optimization). """
    b = best_of(r['fx'] for r in rec)
    if b == math.inf:
        ctx.count('no_finite_yet')
        if fx is not None and fx == fx and fx < math.inf:
            ctx.viol('result although nothing below infinity was recorded', (where, fx))
        return
    if fx is None or not same(fx, b):
        ctx.viol('reported value is not the best recorded', f'{where}: reported {fx}, best {b}, {len(rec)} recorded')
        return
    if not x or dec(x[2]) != fx or not any(r['x'] == list(x) and r['fx'] == fx for r in rec):
        ctx.viol('reported parameters do not evaluate to the reported value', (where, x, fx))
        return
    if not origin or origin.get('opt_id') != int(x[0]):
        ctx.viol('origin is not the producer', (where, x, origin))
    ctx.count('best_checks')


def c02(v, ctx, rec_before=(), finished=None):
    t, W = v.t, v.W
    last = None
    allrec = list(rec_before) + v.rec
    nb = len(rec_before)
    running = math.inf
    for r in rec_before:
        if r['fx'] == r['fx'] and r['fx'] < running:
            running = r['fx']
    k = nb
    for e in v.checks:
        n = e['n_rec']
        if n == 0:
            continue
        while k < n:
            f = allrec[k]['fx']
            if f == f and f < running:
                running = f
            k += 1
        if running == math.inf:
            judge_best(allrec[:n], e['x'], e['fx'], e['origin'], ctx, 'during the run')
        else:
            x = e['x']
            if e['fx'] != running:
                ctx.viol('reported value is not the best recorded', f'reported {e["fx"]}, best {running} of {n}')
                break
            if not x or dec(x[2]) != running or e['origin'] is None or e['origin'].get('opt_id') != int(x[0]):
                ctx.viol('reported parameters or origin do not belong to the value', e)
                break
            ctx.count('best_checks')
            if last is not None and e['fx'] > last:
                ctx.viol('result regressed', (last, e['fx']))
            last = e['fx']
    if t.result is None:
        return
    res = t.result
    judge_best(allrec, res.x, res.fx, res.origin, ctx, 'final')
    if res.x and res.origin:
        ctx.expect(res.origin.get('type') == 'ScriptOpt', 'type of the origin', res.origin)
    if W.final is not None and allrec:
        b = W.final['best']
        judge_best(allrec, list(b['x']), b['fx'], {'opt_id': b['opt_id']}, ctx, 'log')
    st = res.stats or {}
    if 'f_evals' in st:
        ctx.count('final_statistics')
        ctx.expect(st['f_evals'] == len(allrec), 'statistics: evaluations', (st, len(allrec)))
        ctx.expect(st['opts_started'] == W.n_started(),
                   'statistics: optimizers started', (st, W.n_started()))
        if v.hunts is not None:
            nk = len({h['victim'] for h in W.of('hunt') if h['res']}) + getattr(W, 'user_stops', 0)
            ctx.expect(st['opts_killed'] == nk, 'statistics: optimizers killed', (st, nk))
        if W.final is not None:
            conv = [o for o, d in W.final['opts'].items() if str(d['meta'].get('end_cond')) in NORMAL]
            ctx.expect(st['opts_conv'] == len(conv), 'statistics: optimizers converged',
                       (st, {o: d['meta'].get('end_cond') for o, d in W.final['opts'].items()}))
        if v.end == EXHAUSTED and finished is not None:
            ctx.expect(st['opts_conv'] == finished, 'statistics: converged although none ended so', (st, finished))


# ---- C03 -------------------------------------------------------------------------------------------------------------
def c03(v, ctx, first=1):
    t, W, c = v.t, v.W, v.c
    slots = {o: e['workers'] for o, e in v.new.items()}
    ids = list(v.new)
    fresh = [o for o in ids if o >= first]
    ctx.expect(fresh == list(range(first, first + len(fresh))), 'identifiers not consecutive', ids)
    ev = sorted([(cl, k, d) for cl, k, d in t.S.events if k in ('opt_start', 'select', 'opt_new', 'check')] +
                [], key=lambda i: i[0])
    peak = 0
    pending = None          # answered select waiting for its optimizer
    want_more = None        # free slots after the last answered request
    prev_live = None
    started_since = 0
    n_sel = None            # selects since last check
    stopped = False
    sel = 0
    for cl, k, d in ev:
        if k == 'opt_start':
            o = opt_of(d['opt'])
            live = v.live_at(cl)
            tot = sum(slots.get(i, 1) for i in live)
            peak = max(peak, tot)
            if tot > c['max_jobs']:
                ctx.viol('more slots in use than allowed', f'{ {i: slots.get(i) for i in live} } of {c["max_jobs"]}')
            if pending is not None and pending[0] == o:
                pending = None
        elif k == 'select':
            sel += 1
            n_sel = (n_sel or 0) + 1
            if stopped:
                ctx.viol('asked for another optimizer after spawning was stopped', d)
            if pending is not None:
                ctx.viol('selected optimizer not started', pending)
                pending = None
            used = sum(slots.get(i, 1) for i in v.live_at(cl))
            if not 0 < d['slots'] <= c['max_jobs'] - used:
                ctx.viol('slots offered are not free', f'offered {d["slots"]}, used {used} of {c["max_jobs"]}')
            if want_more is not None and d['slots'] < want_more:
                ctx.viol('free slots withheld', (want_more, d['slots']))
            if want_more is None and prev_live is not None and d['slots'] < c['max_jobs'] - prev_live:
                ctx.viol('free slots withheld', (d['slots'], c['max_jobs'] - prev_live))
            want_more = None
            if d['ans'] is False:
                stopped = True
            elif d['ans'] is not None:
                w = d['ans'][1]['workers']
                want_more = d['slots'] - w if d['slots'] - w > 0 else None
                pending = ('answer', d['ans'], d['slots'])
        elif k == 'opt_new':
            if d['opt'] < first:
                continue
            if pending is None or pending[0] != 'answer':
                ctx.viol('optimizer created which was not selected', d)
                continue
            a = pending[1]
            exp = {k2: x for k2, x in a[1].items() if k2 not in ('workers', 'backend')}
            if d['workers'] != a[1]['workers'] or d['kw'] != exp:
                ctx.viol('configuration of the optimizer differs from the selected one', (d, a))
            if bool(d['detailed']) != bool(c['detailed']):
                ctx.viol('detailed flag not passed on', d)
            if d['backend'] != a[1].get('backend', 'threads'):
                ctx.viol('backend of the optimizer', (d, a))
            b = [e for e in W.of('opt_begin', v.t.session) if e['opt'] == d['opt']]
            if b and (b[0]['call_kw'] != a[2]):
                ctx.viol('call arguments differ from the selected ones', (b[0], a))
            pending = (d['opt'],)
            ctx.count('started')
        elif k == 'check' and d['started']:
            if pending is not None:
                ctx.viol('selected optimizer not started', pending)
                pending = None
            if want_more is not None and not stopped:
                ctx.viol('free slots not filled', f'{want_more} slots left after the last optimizer was started')
            want_more = None
            if prev_live is not None and not stopped and not n_sel and prev_live < c['max_jobs']:
                ctx.viol('free slots not offered to the selector', f'{prev_live} of {c["max_jobs"]} in use')
            n_sel = 0
            prev_live = sum(slots.get(i, 1) for i in v.live_at(cl))
    gens = W.of('gen', v.t.session)
    begins = {e['opt']: e for e in W.of('opt_begin', v.t.session)}
    for g, o in zip(gens, [o for o in ids if o >= first]):
        if o in begins and list(begins[o]['x0']) != list(g['x']):
            ctx.viol('start point differs from the generated one', (o, begins[o]['x0'], g['x']))
    ctx.count('requests', sel)
    ctx.count('peak_at_limit', peak == c['max_jobs'])
    if stopped:
        ctx.count('spawning_stopped')
    ctx.expect(t.m.o_counter == max(ids, default=first - 1), 'optimizer counter', (t.m.o_counter, ids))


# ---- C04 -------------------------------------------------------------------------------------------------------------
def c04(v, ctx, user_stops=()):
    t, W, c = v.t, v.W, v.c
    allrec = W.rec
    killed = {}
    last_f = None
    run_best = math.inf
    k = 0
    holders = set()
    hunt_fs = []
    held = {}
    for h in v.hunts:
        while k < h['n_rec']:
            r = allrec[k]
            a = held.get(r['opt'], (0, None))
            held[r['opt']] = (a[0] + 1, r['fx'])
            if r['fx'] == r['fx']:
                if r['fx'] < run_best:
                    run_best, holders = r['fx'], {r['opt']}
                elif r['fx'] == run_best:
                    holders.add(r['opt'])
            k += 1
        if run_best < math.inf and h['hunter'] not in holders:
            ctx.viol('hunter does not hold the best solution', (h, sorted(holders)))
        for o, got in zip((h['hunter'], h['victim']), h['hist']):
            want = held.get(o, (0, None))
            if got is None or got[0] != want[0] or not same(got[1], want[1]):
                ctx.viol('the log does not hold the whole history of the optimizers compared', (o, got, want, h))
        ctx.count('hunter_had_ended', v.life.get(h['hunter'], (0, math.inf))[1] < h['clock'])
        if h['victim'] == h['hunter']:
            ctx.viol('optimizer hunts itself', h)
        if h['victim'] in killed:
            ctx.viol('killed optimizer hunted again', h)
        elif h['ended'] is not None:
            ctx.viol('ended optimizer hunted', h)
        if not hunt_fs or hunt_fs[-1] != h['n_rec']:
            if h['n_rec'] - (hunt_fs[-1] if hunt_fs else 0) < c['hunt_freq']:
                ctx.viol('hunts closer together than configured', (hunt_fs[-1:], h['n_rec'], c['hunt_freq']))
            hunt_fs.append(h['n_rec'])
        if h['res']:
            if h['hunter'] != h['victim']:
                killed.setdefault(h['victim'], h)
    ctx.count('hunts', len(hunt_fs))
    ctx.count('conditions_evaluated', len(v.hunts))
    if c['hunt'] and t.session == 0 and len(allrec) == len(v.rec) == t.m.f_counter:
        cadence(v, ctx, hunt_fs, user_stops)
    ctx.count('kills', len(killed))
    # stop signals before the end of the run
    stops = [(cl, o, 'stop') for cl, o, obj in v.sends if (obj == 1 or (isinstance(obj, tuple) and obj and obj[0] == 1))]
    stops += [(cl, o, 'terminate') for cl, o in v.terms]
    stops = sorted(s for s in stops if s[0] < v.end_clock)
    seen = set()
    for cl, o, how in stops:
        if o in user_stops or o in getattr(W, 'forced', ()):
            continue
        h = killed.get(o)
        if h is None or h['clock'] > cl:
            ctx.viol('optimizer shut down without a true hunting condition', (cl, o, how))
        elif o in seen:
            ctx.viol('optimizer shut down twice', (cl, o, how))
        seen.add(o)
    for o, h in killed.items():
        a, b = v.life.get(o, (0, 0))
        told = any(s[1] == o and s[0] > h['clock'] for s in stops) or \
            any(x == o and cl > h['clock'] for cl, x, obj in v.sends if obj == 1) or b < v.end_clock or \
            any(x == o and cl > h['clock'] for cl, x in v.terms)
        if not told and b > v.end_clock:
            ctx.viol('killed optimizer not told to stop', h)
        late = [r for r in v.rec if r['opt'] == o and r['clock'] > h['clock']]
        if late:
            ctx.viol('result of a killed optimizer recorded', (h, late[0]))
        if W.final is not None:
            m = W.final['opts'][o]['meta']
            ec = str(m.get('end_cond'))
            if o in getattr(W, 'forced', ()):
                continue
            if not (ec.startswith('GloMPO Termination') and f'Hunter: {h["hunter"]}\n' in ec):
                ctx.viol('end condition does not name the kill', (h, ec))
            elif 'RecHunter' not in ec or 'True' not in ec:
                ctx.viol('end condition does not give the reason of the kill', ec)
            if m.get('t_stop') is None:
                ctx.viol('killed optimizer has no stop time', m)
    if W.final is not None:
        for o, d in W.final['opts'].items():
            if str(d['meta'].get('end_cond')).startswith('GloMPO Termination') and o not in killed and \
                    o not in user_stops:
                ctx.viol('end condition claims a kill which was not made', (o, d['meta']))
    hv = set(t.m.hunt_victims)
    ctx.expect(hv == set(killed) | set(user_stops), 'kill record', (hv, set(killed)))
    for e in v.checks:
        pass


def cadence(v, ctx, hunt_fs, user_stops):
    """ A hunt takes place whenever the configured number of evaluations has been recorded since the last one, and it concerns
    every other optimizer which is known to be running. """
    at = {}
    for h in v.hunts:
        at.setdefault(h['n_rec'], []).append(h)
    last_begin = {}
    for e in v.evals:
        last_begin[e['opt']] = max(last_begin.get(e['opt'], -1), e['begin'])
    last, due, best, holders, seen, killed = 0, [], math.inf, set(), set(), set()
    for n, r in enumerate(v.rec, 1):
        seen.add(r['opt'])
        if r['fx'] < best:
            best, holders = r['fx'], {r['opt']}
        elif r['fx'] == best:
            holders.add(r['opt'])
        if best < math.inf and n - last >= v.c['hunt_freq']:
            last = n
            due.append(n)
            done = {h['victim'] for h in at.get(n, ())}
            for o in seen - holders - killed - done - set(user_stops) - set(getattr(v.W, 'forced', ())):
                if last_begin.get(o, -1) > r['clock']:
                    ctx.viol('running optimizer not hunted', (n, o, r))
            ctx.count('hunted', len(done))
            killed |= {h['victim'] for h in at.get(n, ()) if h['res']}
    ctx.expect(set(hunt_fs) <= set(due), 'hunt at another time than configured', (hunt_fs[:9], due[:9], v.c['hunt_freq']))
    ctx.expect(v.t.m.hunt_counter == len(due), 'number of hunts', (v.t.m.hunt_counter, len(due), v.c['hunt_freq'], len(v.rec)))


# ---- C05 -------------------------------------------------------------------------------------------------------------
def c05(v, ctx):
    t, W, c = v.t, v.W, v.c
    if not v.checked:
        pre = [e for e in W.of('checked', t.session) if not e['started']]
        if not (pre and pre[-1]['res']):
            ctx.viol('ended without asking the convergence condition', v.end)
        if v.life or v.new:
            ctx.viol('optimizer started although the condition was true before the start', list(v.life))
        ctx.count('true_before_start')
        return
    true_at = [i for i, e in enumerate(v.checked) if e['res']]
    if true_at:
        ctx.count('ended_by_condition')
        if true_at[0] != len(v.checked) - 1:
            ctx.viol('run continued after its convergence condition was true', (true_at, len(v.checked)))
        exp = t.m.convergence_checker.str_with_result()
        if v.end != exp or '= True' not in str(v.end):
            ctx.viol('end reason', (v.end, exp))
        after = [e for k, e in W.ev if k == 'opt_new' and e['clock'] > v.checked[true_at[0]]['clock']]
        if after:
            ctx.viol('optimizer started after the run ended', after[0])
    elif v.end == EXHAUSTED:
        ctx.count('ended_by_exhaustion')
        last = v.checked[-1]['clock'] if v.checked else 0
        if v.live_at(last):
            ctx.viol('ended while optimizers are alive', v.live_at(last))
        if not any(s['ans'] is False for s in W.of('select')):
            ctx.viol('ended although more optimizers may be started', '')
    else:
        ctx.viol('end without reason', (v.end, [w[-800:] for w in t.warn]))
    told = {o for cl, o, obj in v.sends if obj == 1 or (isinstance(obj, tuple) and obj and obj[0] == 1)}
    told |= {o for cl, o in v.terms}
    for o, (a, b) in v.life.items():
        if b > v.end_clock:
            if o not in told:
                # the optimizer may have ended on its own between the check and the attempt to tell it
                ended = [e for e in W.of('opt_finish', t.session) if e['opt'] == o] or \
                    [e for e in W.of('fault', t.session) if e['opt'] == o] or \
                    (len([e for e in W.of('opt_save', t.session) if e['opt'] == o]) >
                     len([e for e in W.of('opt_saved', t.session) if e['opt'] == o]))  # failed while saving itself
                if not ended:
                    ctx.viol('optimizer not told to stop at the end', o)
            else:
                ctx.count('told_to_stop_at_end')
    for name, st in t.alive_after:
        if c['proc'] and st is None:
            ctx.viol('process left running', name)
        elif not c['proc'] and c['end_timeout'] is None:
            ctx.viol('thread left running', name)
    if W.final is not None:
        for o, d in W.final['opts'].items():
            if d['meta'].get('end_cond') is None or d['meta'].get('t_stop') is None:
                ctx.viol('optimizer without recorded end', (o, d['meta']))
    ctx.count('checks', len(v.checked))


# ---- C25 -------------------------------------------------------------------------------------------------------------
def c25(v, ctx, before=()):
    t, W, c = v.t, v.W, v.c
    best = best_of(r['fx'] for r in before)
    sends = [(cl, o, obj) for cl, o, obj in v.sends if isinstance(obj, tuple) and obj and obj[0] == 4]
    if not c['share']:
        if sends:
            ctx.viol('solution sent although sharing is disabled', sends[0])
        ctx.count('not_sharing')
        return
    imp = []
    for i, r in enumerate(v.rec):
        if r['fx'] == r['fx'] and r['fx'] < best:
            best = r['fx']
            imp.append((i, r))
    si = 0
    for i, r in imp:
        lo = r['clock']
        hi = v.rec[i + 1]['clock'] if i + 1 < len(v.rec) else math.inf
        mine = [s for s in sends if lo < s[0] < hi]
        for cl, o, obj in mine:
            x, fx = obj[1], obj[2]
            if not same(float(fx), r['fx']) or [float(a) for a in x] != r['x']:
                ctx.viol('solution sent is not the new best', (r, obj))
            if o == r['opt']:
                ctx.viol('solution sent to its producer', (r, o))
        got = [s[1] for s in mine]
        if len(got) != len(set(got)):
            ctx.viol('solution sent twice', got)
        hi2 = min(hi, t.end_clock)
        # an optimizer which is alive until the next check has to be told
        nxt = next((e['clock'] for e in v.checks if e['clock'] > lo), t.end_clock)
        for o, (a, b) in v.life.items():
            if a < lo and b > max(nxt, min(hi2, nxt)) and o != r['opt'] and o not in got:
                ctx.viol('running optimizer not told about the new best', (r, o))
        ctx.count('improvements')
        ctx.count('shared', len(mine))
        si += len(mine)
    if si != len(sends):
        bad = [s for s in sends if not any(r['clock'] < s[0] < (v.rec[i + 1]['clock'] if i + 1 < len(v.rec) else math.inf)
                                           for i, r in imp)]
        ctx.viol('solution sent although the best did not improve', bad[:1])
    inj = W.of('opt_inject', t.session)
    per = {}
    for e in inj:
        per.setdefault(e['opt'], []).append(e)
    for o, es in per.items():
        q = [s for s in sends if s[1] == o]
        for e, s in zip(es, q):
            if e['x'] != [float(a) for a in s[2][1]] or not same(e['fx'], float(s[2][2])):
                ctx.viol('solution taken by the optimizer differs from the one sent', (e, s))
        if len(es) > len(q):
            ctx.viol('optimizer took a solution which was not sent', es[-1])
        ctx.count('injected', len(es))


# ---- C06 -------------------------------------------------------------------------------------------------------------
def legit_crash_loop(v):
    """ The manager may give up if at least six optimizers were started since the last result and some crashed. """
    if not any('spawning and crashing immediately' in w for w in v.t.warn):
        return False
    last = v.rec[-1]['clock'] if v.rec else 0
    started = [o for o, e in v.new.items() if e['clock'] > last]
    faults = [e for e in v.W.of('fault', v.t.session)]
    crashed = {e['opt'] for e in faults}
    return len(started) >= 6 and any(o in crashed for o in list(v.new)[-max(len(started) + v.c['max_jobs'], 7):])


def c06(v, ctx):
    t, W, c = v.t, v.W, v.c
    injected = W.of('injected', t.session)
    faults = {}
    for e in W.of('fault', t.session):
        faults.setdefault(e['opt'], e)
    for e in faults.values():
        ctx.count('fault_' + e['what'])
    ctx.count('injected_in_manager', len(injected))
    crashed = v.end in ('GloMPO Crash', 'User Interrupt')
    if crashed:
        ctx.count('manager_ended_by_failure')
        if injected:
            exp = 'User Interrupt' if injected[0]['exc'] == 'KeyboardInterrupt' else 'GloMPO Crash'
            ctx.expect(v.end == exp, 'reason of the failure', (v.end, exp))
            after = [e for e in W.of('opt_new', t.session) if e['clock'] > injected[0]['clock']]
            if after:
                ctx.viol('optimizer started after the manager failed', after[0])
        elif legit_crash_loop(v):
            ctx.count('crash_loop_stopped')
        else:
            ctx.viol('a failing optimizer brought the manager down',
                     ' '.join(w[-1200:] for w in t.warn if 'Traceback' in w))
            return
    elif [i for i in injected if i['comp'] != 'opt_save']:
        ctx.viol('failure of the manager not reported', (injected, v.end))
    if not crashed and v.checked:
        c05(v, ctx)
    # every result of everyone
    c01(v, ctx)
    if v.checks:
        judge_best(v.rec, t.result.x, t.result.fx, t.result.origin, ctx, 'after failures')
    if not any(i['comp'] == 'selector' for i in injected) and not crashed:
        c03(v, ctx)
    for name, st in t.alive_after:
        if c['proc'] and st is None:
            ctx.viol('process left running', name)
    if W.final is None:
        ctx.viol('log not closed', v.end)
        return
    told = {o for cl, o, obj in v.sends if obj == 1 or (isinstance(obj, tuple) and obj and obj[0] == 1)}
    told |= {o for cl, o in v.terms}
    if crashed:
        for o, (a, b) in v.life.items():
            if b == math.inf and o not in told:
                ctx.viol('optimizer not told to stop after the failure', o)
    term_at = {}
    for cl, o in v.terms:
        term_at.setdefault(o, cl)
    last_check = v.checks[-1]['clock'] if v.checks else 0
    for o, d in W.final['opts'].items():
        ec = str(d['meta'].get('end_cond'))
        if o not in v.life:
            continue            # the generator of its start point failed
        if d['meta'].get('end_cond') is None or d['meta'].get('t_stop') is None:
            ctx.viol('optimizer without recorded end', (o, d['meta']))
            continue
        ended_running = {'GloMPO Convergence', 'GloMPO Crash', 'User Interrupt'}
        # its messages are collected first, as few as one in each round of the manager
        back = 2 + sum(1 for k, kind, e in t.S.events if kind == 'send' and e['by'] == f'Opt{o}')
        noticed = v.life.get(o, (0, math.inf))[1] < (v.checks[-back]['clock'] if len(v.checks) >= back else 0)
        if o in v.kills:
            continue
        f = faults.get(o)
        if f is not None:
            ok = ec.startswith('Error termination') if f['what'] != 'hang' else ec == 'Forced GloMPO Termination'
            if f['what'] == 'exit0':
                ok = ec in NORMAL
            late = not (v.end == EXHAUSTED or (noticed and f['what'] != 'hang'))
            if not ok and not (late and ec in ended_running) and not (late and o in term_at and ec.startswith('Forced')):
                ctx.viol('failed optimizer recorded as something else', (o, f, ec, v.end))
            if f['what'] == 'raise' and (v.end == EXHAUSTED or noticed):
                ms = [m['text'] for m in W.of('message', t.session) if m['opt'] == o]
                if not any('Traceback' in m and f'RuntimeError' in m for m in ms):
                    ctx.viol('traceback of the failed optimizer not recorded', (o, ms))
                ctx.count('tracebacks')
            ctx.count('failures_recorded')
        else:
            fin = [e for e in W.of('opt_finish', t.session) if e['opt'] == o]
            if ec.startswith('Error termination'):
                ctx.viol('healthy optimizer recorded as failed', (o, ec))
            elif ec == 'Forced GloMPO Termination' and o not in term_at:
                ctx.viol('optimizer recorded as terminated which was not', (o, ec))
            elif fin and v.end == EXHAUSTED and ec not in NORMAL and o not in term_at:
                ctx.viol('regular end not recorded', (o, ec))
            elif ec in NORMAL and not fin:
                ctx.viol('end recorded although the optimizer did not end', (o, ec))
    # forced terminations
    for o, cl in term_at.items():
        if cl > v.end_clock or crashed:
            continue
        if o in v.kills:
            if not c['aggressive']:
                ctx.count('forced_after_kill')
                gap = t.S.times[cl] - t.S.times[v.kills[o]['clock']]
                if not 0 < c['force_after'] < gap:
                    ctx.viol('killed optimizer terminated by force before its time to stop was up', (o, gap, c['force_after']))
            continue
        ctx.count('forced_terminations')
        if c['force_after'] <= 0:
            ctx.viol('optimizer terminated by force although not allowed', o)
            continue
        seen = [v.life[o][0]] + [e['end'] for e in v.evals if e['opt'] == o and e.get('delivered') and e['end'] < cl]
        seen += [k for k, kind, d in t.S.events if kind == 'send' and d['by'] == f'Opt{o}' and k < cl]
        gap = t.S.times[cl] - t.S.times[max(seen)]
        if gap <= c['force_after']:
            ctx.viol('responsive optimizer terminated by force', (o, gap, c['force_after']))
    # statistics
    st = t.result.stats or {}
    if 'opts_conv' in st:
        conv = [o for o, d in W.final['opts'].items() if str(d['meta'].get('end_cond')) in NORMAL]
        ctx.expect(st['opts_conv'] == len(conv), 'failed optimizers counted as converged',
                   (st, {o: d['meta'].get('end_cond') for o, d in W.final['opts'].items()}))


# ---- C10 -------------------------------------------------------------------------------------------------------------
def planned(plan):
    return sum(1 if op[0] == 'e' else len(op[1]) if op[0] == 'q' else 0 for op in plan)


def c10(v, ctx, faulty=False):
    t, W, c = v.t, v.W, v.c
    S = t.S
    s = t.session
    chks = []
    cur = None
    for k, e in W.ev:
        if e['session'] != s:
            continue
        if k == 'chkpt_begin':
            cur = {'b': e, 'saves': [], 'ok': None}
            chks.append(cur)
        elif k == 'opt_save' and cur is not None:
            cur['saves'].append(e)
        elif k == 'chkpt_end':
            cur['e'] = e
            cur = None
    ctx.count('checkpoints', len(chks))
    starts = [(cl, d) for cl, k, d in S.events if k == 'eval.begin']
    for ch in chks:
        if 'e' not in ch:
            ctx.viol('checkpoint did not end', ch['b'])
            continue
        if not ch['e']['ok']:
            if not faulty:
                ctx.viol('checkpoint failed', ch['e'])
            continue
        new = {str(h).rsplit('/', 1)[-1] for h in ch['e']['hist'] - ch['b']['hist']}
        ctx.count('completed', bool(new))
        if ch['saves']:
            lo = ch['saves'][0]['clock']
            for cl, d in starts:
                if lo < cl < ch['e']['clock'] and new and not (new <= (d['dir'] or frozenset())):
                    ctx.viol('evaluation while the checkpoint was being built', (d, sorted(new)))
                    break
            ctx.count('optimizers_paused', len(ch['saves']))
            who = [e['opt'] for e in ch['saves']]
            ctx.expect(len(who) == len(set(who)), 'optimizer saved twice', who)
        if not faulty and new:
            # everyone alive who does not end or get killed is saved
            lo, hi = ch['b']['clock'], ch['e']['clock']
            ended = {e['opt'] for kk in ('opt_finish', 'fault') for e in W.of(kk, s) if e['clock'] < hi}
            dead = {h['victim'] for h in v.hunts if h['res'] and h['clock'] < hi} | {o for cl, o in v.terms if cl < hi}
            stopping = {o for cl, o, obj in v.sends if obj == 1 and cl < hi}
            for n in ch['b']['live']:
                o = opt_of(n)
                if o not in ended and o not in dead and o not in stopping and \
                        o not in [e['opt'] for e in ch['saves']] and v.life[o][1] > hi:
                    ctx.viol('living optimizer not part of the checkpoint', (o, ch['b'], [e['opt'] for e in ch['saves']]))
    # nobody starts twice
    b = [e['opt'] for e in W.of('opt_begin', s)]
    ctx.expect(len(b) == len(set(b)), 'optimizer restarted', b)
    # everybody carries on
    if v.end == EXHAUSTED:
        for o in v.life:
            if o in v.kills or any(e['opt'] == o for e in W.of('fault', s)) or any(x == o for _, x in v.terms):
                continue
            plan = W.plans(o)
            made = len([e for e in W.evals if e['opt'] == o])
            ctx.expect(made == planned(plan), 'optimizer did not carry on to its own end', (o, made, planned(plan)))
            ctx.count('carried_on')
    # schedule
    k = c['chk'] or {}
    it, tm = k.get('iter', math.inf), k.get('time', math.inf)
    if not v.checks:
        return
    marks = sorted([(e['clock'], 'check', e) for e in v.checks] + [(x['b']['clock'], 'chk', x['b']) for x in chks],
                   key=lambda i: i[0])
    last_f = 0
    t_lo, t_hi = S.times[0], S.times[v.checks[0]['clock']]
    due = None
    prev = None
    last_check = v.checks[-1]['clock']
    at_end = 0
    for cl, kind, e in marks:
        if kind == 'check':
            if due:
                ctx.viol('checkpoint not taken although due', due)
            due = None
            if e['f'] - last_f > it:
                due = f'{e["f"]} evaluations, last at {last_f}, every {it}'
            if S.times[cl] - t_hi > tm:
                due = f'{S.times[cl] - t_hi} s since the last, every {tm}'
            prev = e
        else:
            by_f = prev is not None and prev['f'] - last_f >= it
            by_t = S.times[cl] - t_lo > tm
            if prev is None:
                ctx.viol('checkpoint not asked for', e)
            elif by_f or by_t:
                # which of the two clocks was restarted is not specified if both were due
                if by_t:
                    t_lo = t_hi = S.times[cl]
                if by_f and not by_t:
                    last_f = prev['f']
                elif by_f:
                    pass
                if not by_t and by_f:
                    pass
                due = None
                prev = None if cl < last_check else prev
            elif cl > last_check and k.get('conv') and at_end == 0:
                at_end += 1
                due = None
            else:
                ctx.viol('checkpoint not asked for', (e, last_f, it, tm))
                due = None
    if due:
        ctx.viol('checkpoint not taken although due', due)
    if k.get('conv') and not any(x['b']['clock'] > last_check for x in chks):
        ctx.viol('no checkpoint at the end', '')
    if k.get('conv'):
        ctx.count('at_end')
