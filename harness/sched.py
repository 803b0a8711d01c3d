"""Simulated executions of scheduling domains, compared step by step with the reference of sched_model."""
import copy
import hashlib
import pickle
import random
import traceback

from harness import sched_model as M
from harness.common import Outcome

FIELD_PROPS = {'used': 'C09', 'avail': 'C09', 'held': 'C09', 'first': 'C09',
               't': 'C10', 'start': 'C10', 'end': 'C10', 'duration': 'C10', 'progress': 'C10', 'active': 'C10',
               'mode': 'C10', 'cost': 'C10',
               'remaining': 'C11', 'ongoing': 'C11', 'complete': 'C11', 'paused': 'C11', 'offered': 'C11',
               'terminal': 'C11', 'goal': 'C11', 'no-progress': 'C11',
               'pauses': 'C12', 'distribution': 'C13', 'support': 'C13',
               'mutation': 'C14', 'equality': 'C14', 'reset': 'C14', 'confluence': 'C14',
               'conditions': 'C15'}


class Stop(Exception):
    pass


class Run:
    def __init__(self, spec):
        self.spec = spec
        self.p = M.Prob(spec)
        self.ref = M.Ref(self.p)
        self.violations = []        # (class, detail, set of properties)
        self.stats, self.faults = {}, {}
        self.h = hashlib.sha1()
        self.nodes = []             # (real, ref, projection)
        self.log = []
        self.paused_before = False
        self.given = None           # the action object to apply instead of a new one

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def fail(self, fields, detail):
        fields = list(fields)
        props = {FIELD_PROPS[f] for f in fields if f in FIELD_PROPS}
        if 'exception' in fields:
            props = {'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15'}
        if self.paused_before:
            props.add('C12')
        if self.p.cond and set(fields) & {'remaining', 'complete', 'goal', 'terminal', 'offered', 'distribution',
                                         'conditions', 'no-progress'}:
            props.add('C15')
        if self.p.kind == 'unc' and set(fields) & {'support', 'distribution', 'duration', 'conditions'}:
            props.add('C13')
        self.violations.append(('+'.join(sorted(fields)), detail, props))
        raise Stop()

    def call(self, what, f, *args, seed=0):
        random.seed(seed)
        try:
            return f(*args)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.fail(['exception'], f'{what}: {type(e).__name__}: {e} [{tb.name}] after {self.log[-3:]}')

    # ------------------------------------------------------------------------------------------ execution
    def execute(self):
        state = random.getstate()
        try:
            try:
                self._run()
            except Stop:
                pass
        finally:
            random.setstate(state)
        return self

    def add(self, real, ref, pr=None):
        pr = pr if pr is not None else self.call('reading a state', M.proj, real)
        self.nodes.append((real, ref, pr))
        self.h.update(M.key(pr).encode())
        self.cur = len(self.nodes) - 1
        return pr

    def _run(self):
        self.dom = self.call('building the domain', M.build, self.p, seed=self.spec.get('seed', 0))
        self.check_durations()
        self.reset()
        for op in self.spec['ops']:
            self.op(op)
        self.finish()
        self.epilogue()

    def reset(self):
        s = self.call('reset', self.dom.reset)
        r = self.ref.initial()
        pr = self.call('reading a state', M.proj, s)
        d = M.diff(pr, r.proj())
        if d:
            fields = set(d) | ({'reset'} if self.nodes else set())
            self.fail(fields, f'state after reset differs (got, expected): {d}')
        if self.p.inplace:
            self.nodes = []
        self.add(s, r, pr)
        self.check_state(s, r)

    def check_state(self, s, r):
        """terminal / goal / offered actions"""
        for name, want in (('is_terminal', self.ref.terminal(r)), ('is_goal', self.ref.goal(r))):
            if not hasattr(self.dom, name):     # a simulation-only domain reports termination with its outcomes
                continue
            got = self.call(name, getattr(self.dom, name), s)
            if bool(got) != want:
                self.fail([name[3:]], f'{name} is {got}, expected {want}, at t={r.t} remaining={sorted(r.rem)} '
                                      f'ongoing={sorted(r.ong)} paused={sorted(r.pau)} after {self.log[-3:]}')
        if self.ref.terminal(r):
            return
        for name, tasks in (('get_possible_starting_tasks', [i for i in r.rem if self.ref.prec_ok(r, i)]),
                            ('get_possible_resume_tasks', [i for i in r.pau if self.ref.prec_ok(r, i)])):
            got = self.call(name, getattr(self.dom, name), s)
            got = {(i, m) for i in got for m in got[i]}
            want = {(i, m) for i in tasks for m in self.p.modes(i) if self.ref.fits(r, self.ref.wants(r, i, m, None))}
            if got != want:
                self.fail(['offered'], f'{name}: missing {sorted(want - got)}, unexpected {sorted(got - want)}, '
                                       f'at t={r.t} after {self.log[-3:]}')
        space = self.call('get_applicable_actions', self.dom.get_applicable_actions, s)
        if self.p.units:
            self.unit_space(s, r)
        else:
            els = self.call('applicable actions', lambda: list(space.get_elements()))
            got = [(x.action.name, x.task, x.mode) for x in els]
            want = self.ref.offered(r)
            if set(got) != want or len(got) != len(want):
                self.fail(['offered'], f'offered actions: missing {sorted(map(str, want - set(got)))}, '
                                       f'unexpected {sorted(map(str, set(got) - want))}, {len(got)} listed, '
                                       f'at t={r.t} after {self.log[-3:]}')
        return space

    def unit_space(self, s, r):
        """The enumerable space over single resource units."""
        from skdecide.builders.scheduling.scheduling_domains import SchedulingActionSpaceWithResourceUnit
        els = self.call('SchedulingActionSpaceWithResourceUnit',
                        lambda: [M.from_real(x) for x in
                                 SchedulingActionSpaceWithResourceUnit(domain=self.dom, state=s).get_elements()])
        got = [(a.kind, a.task, a.mode, tuple(a.units or ())) for a in els]
        want = {('TIME_PR', None, None, ())}
        want |= {('PAUSE', i, None, ()) for i in r.ong if self.p.preemptive(i)}
        if not self.ref.over(r):
            for kind, cands in (('START', [(i, m) for i in r.rem if self.ref.prec_ok(r, i) for m in self.p.modes(i)]),
                                ('RESUME', [(i, r.tk[i].mode) for i in r.pau])):
                for i, m in cands:
                    need = self.p.skills(i, m)
                    for u in ([[x] for x in self.p.units if all(self.p.units[x].get('skills', {}).get(k, 0) >= v
                                                                for k, v in need.items())] if need else [[]]):
                        if self.ref.acceptable(r, M.Act(kind, i, m, units=u)):
                            want.add((kind, i, m, tuple(u)))
        if set(got) != want or len(got) != len(want):
            self.fail(['offered'], f'unit action space: missing {sorted(map(str, want - set(got)))}, unexpected '
                                   f'{sorted(map(str, set(got) - want))} at t={r.t} after {self.log[-3:]}')

    def check_durations(self):
        """Declared bounds agree with the distributions."""
        if not hasattr(self.dom, 'get_task_duration_upper_bound'):
            return
        for i in self.p.tasks:
            for m in self.p.modes(i):
                ds = [d for d, _ in self.p.durations(i, m)]
                lo = self.call('get_task_duration_lower_bound', self.dom.get_task_duration_lower_bound, i, m)
                hi = self.call('get_task_duration_upper_bound', self.dom.get_task_duration_upper_bound, i, m)
                if (lo, hi) != (min(ds), max(ds)):
                    self.fail(['duration'], f'duration bounds of task {i} mode {m}: {lo}, {hi}, expected '
                                            f'{min(ds)}, {max(ds)}')

    # ------------------------------------------------------------------------------------------ choosing actions
    def legal(self, r, a):
        if a.kind == 'TIME_PR':
            return a.tp
        if a.kind == 'PAUSE':
            return a.task in r.ong and self.p.preemptive(a.task)
        if self.ref.over(r):
            return False
        if a.kind == 'START':
            return a.task in r.rem and a.mode in self.p.modes(a.task) and self.ref.prec_ok(r, a.task) \
                and self.ref.acceptable(r, a)
        return a.task in r.pau and a.mode in self.p.modes(a.task) and self.ref.acceptable(r, a)

    def sampled(self, s, r, seed):
        space = self.call('get_applicable_actions', self.dom.get_applicable_actions, s)
        x = self.call('sampling an applicable action', space.sample, seed=seed)
        if x is None:
            self.fail(['offered'], f'sampled action is None at t={r.t} after {self.log[-3:]}')
        a = M.from_real(x)
        if not self.legal(r, a):
            self.fail(['offered'], f'sampled action {a} cannot be executed at t={r.t} remaining={sorted(r.rem)} '
                                   f'ongoing={sorted(r.ong)} paused={sorted(r.pau)} used={r.used} avail={r.avail} '
                                   f'after {self.log[-3:]}')
        return a

    def pick(self, op, s, r):
        """An action for op in the current state, or None."""
        x = op['r']
        if op['op'] == 'sampled':
            return self.sampled(s, r, op.get('s', 0))
        if op['op'] == 'time':
            return M.Act('TIME_PR', tp=True)
        if op['op'] == 'over':      # a start that must be refused
            c = [M.Act('START', i, m) for i in sorted(r.rem) if self.ref.prec_ok(r, i) for m in self.p.modes(i)]
            c = [a for a in c if not self.ref.acceptable(r, a)]
            return c[x % len(c)] if c else None
        if op['op'] == 'over_resume':
            c = [M.Act('RESUME', i, r.tk[i].mode) for i in sorted(r.pau)]
            c = [a for a in c if not self.ref.acceptable(r, a)]
            return c[x % len(c)] if c else None
        if self.p.units:
            want = {'start': ('START',), 'pause': ('PAUSE',), 'resume': ('RESUME',),
                    'act': ('START', 'PAUSE', 'RESUME')}[op['op']]
            for k in range(12):
                a = self.sampled(s, r, op.get('s', 0) * 31 + k)
                if a.kind in want:
                    return a
            return None
        c = sorted(self.ref.offered(r), key=str)
        c = {'start': [a for a in c if a[0] == 'START'], 'pause': [a for a in c if a[0] == 'PAUSE'],
             'resume': [a for a in c if a[0] == 'RESUME'], 'act': c}[op['op']]
        if not c:
            return None
        k, i, m = c[x % len(c)]
        return M.Act(k, i, m, tp=(k == 'TIME_PR'))

    def op(self, op):
        s, r, _ = self.nodes[self.cur]
        kind = op['op']
        if kind == 'branch':
            if self.p.inplace:
                return
            self.cur = op['r'] % len(self.nodes)
            self.fault('return to an earlier state')
            self.log.append(f'back to state {self.cur}')
            return
        if kind == 'ckpt':
            if self.p.inplace:
                return
            c = self.call('pickling a state', lambda: pickle.loads(pickle.dumps(s)))
            if not (c == s) or hash(c) != hash(s):
                self.fail(['equality'], f'a pickled copy differs from its state after {self.log[-3:]}')
            self.fault('crash and restart from a saved state')
            d = M.diff(M.proj(c), r.proj())
            if d:
                self.fail(list(d) + ['equality'], f'restored state: {d}')
            self.nodes[self.cur] = (c, r, self.nodes[self.cur][2])
            return
        if kind == 'reset':
            self.reset()
            self.fault('reset')
            self.log.append('reset')
            return
        if self.ref.terminal(r):
            return
        if kind == 'confl':
            return self.confluence(op, s, r)
        a = self.pick(op, s, r)
        if a is None:
            return
        if op.get('tp') and a.kind in ('START', 'PAUSE'):
            a.tp = True
        if a.kind == 'RESUME' and op.get('nomode') and a.mode == r.tk[a.task].mode:
            a.mode_arg = False
        self.transition(a, op)

    # ------------------------------------------------------------------------------------------ transitions
    def transition(self, a, op):
        s, r, before = self.nodes[self.cur]
        api = op.get('api', 'next')
        if self.p.inplace:
            api = 'step'
        if api == 'next' and self.p.kind != 'det':
            api = 'dist' if self.p.kind == 'unc' else 'sample'
        if api == 'dist' and self.p.kind == 'sim':
            api = 'sample'
        self.log.append(f'{a} by {api} at t={r.t}')
        self.stat('transitions')
        self.stat(a.kind.lower() + ' actions')
        self.stat('api ' + api)
        if a.kind == 'PAUSE':
            self.paused_before = True
            self.fault('pause of a running task')
        if op['op'] == 'over':
            self.fault('start beyond capacity')
        if op['op'] == 'over_resume':
            self.fault('resume beyond capacity')
        exp = self.ref.next(r, a)
        act = self.given if self.given is not None else M.real_action(a)
        self.given = None
        seed = op.get('s', 0)
        value = term = None
        if api == 'next':
            n = self.call('get_next_state', self.dom.get_next_state, s, act, seed=seed)
            if op.get('value'):
                value = self.call('get_transition_value', self.dom.get_transition_value, s, act, n).cost
        elif api == 'sample':
            o = self.call('sample', self.dom.sample, s, act, seed=seed)
            n, value, term = o.observation, o.value.cost, o.termination
        elif api == 'step':
            if not self.p.inplace:
                self.call('set_memory', self.dom.set_memory, s)
            o = self.call('step', self.dom.step, act, seed=seed)
            n, value, term = o.observation, o.value.cost, o.termination
        if api == 'dist':
            n, nr, pr = self.compare_distribution(s, act, exp, a, op)
        else:
            pr = self.call('reading a state', M.proj, n)
            nr = self.match(pr, exp, a)
        if not self.p.inplace:
            after = self.call('reading a state', M.proj, s)
            d = M.diff(before, after)
            if d:
                self.fail(['mutation'], f'{a} by {api} changed the state it was applied to: {d}')
        want = self.ref.cost(a, r)
        if value is not None and want is not None and abs(value - want) > 1e-6:
            self.fail(['cost'], f'{a} by {api} costs {value}, expected {want}')
        if term is not None and bool(term) != self.ref.terminal(nr):
            self.fail(['terminal'], f'termination {term} after {a}, expected {self.ref.terminal(nr)}')
        for res in nr.avail:
            if nr.avail[res] < r.avail[res]:
                self.fault('capacity drop')
            elif nr.avail[res] > r.avail[res]:
                self.fault('capacity restored')
        if self.ref.over(nr):
            self.stat('overconsuming states')
        self.add(n, nr, pr)
        self.check_state(n, nr)

    def match(self, pr, exp, a):
        best = None
        for st, p in exp:
            if p <= 0:
                continue
            d = M.diff(pr, st.proj())
            if not d:
                return st
            if best is None or len(d) < len(best):
                best = d
        fields = set(best)
        if len(exp) > 1:
            fields.add('support')
        self.fail(fields, f'after {a} (got, expected): {best}; history {self.log[-4:]}')

    def compare_distribution(self, s, act, exp, a, op):
        d = self.call('get_next_state_distribution', self.dom.get_next_state_distribution, s, act,
                      seed=op.get('s', 0))
        vals = self.call('get_values', lambda: [(v, p) for v, p in d.get_values()])
        self.stat('outcomes', len(vals))
        agg, rep = {}, {}
        for v, p in vals:
            pr = self.call('reading a state', M.proj, v)
            k = M.key(pr)
            agg[k] = agg.get(k, 0) + p
            rep.setdefault(k, (v, pr))
        want, wrep = {}, {}
        for st, p in exp:
            k = M.key(st.proj())
            want[k] = want.get(k, 0) + p
            wrep.setdefault(k, st)
        for k, (v, pr) in rep.items():
            if k not in want:
                best = min((M.diff(pr, st.proj()) for st in wrep.values()), key=len)
                if best:
                    self.fail(set(best) | ({'distribution'} if len(exp) > 1 else set()),
                              f'outcome of {a} (got, nearest expected): {best}; history {self.log[-4:]}')
        missing = [k for k in want if want[k] > 1e-12 and k not in agg]
        if missing:
            self.fail(['distribution'], f'{len(missing)} of {len(want)} outcomes of {a} are missing, first has '
                                        f'probability {want[missing[0]]}; history {self.log[-4:]}')
        bad = [(agg[k], want[k]) for k in want if abs(agg.get(k, 0) - want[k]) > 1e-6]
        if bad:
            self.fail(['distribution'], f'probabilities of outcomes of {a} (got, expected): {bad[:3]}; '
                                        f'sum {sum(agg.values())}; history {self.log[-4:]}')
        if len(rep) > 1:
            self.stat('chance transitions')
            self.siblings(vals)
        ks = sorted(rep)
        k = ks[op['r'] // 7 % len(ks)]
        return rep[k][0], wrep[k], rep[k][1]

    def siblings(self, vals):
        """Outcomes of one distribution share nothing: advancing one leaves the others alone."""
        self.keep = [(v, M.proj(v)) for v, _ in vals]
        self.kept = getattr(self, 'kept', []) + self.keep

    def confluence(self, op, s, r):
        if self.p.units or self.p.inplace or self.p.kind != 'det' or self.ref.over(r):
            return
        st = sorted((a for a in self.ref.offered(r) if a[0] == 'START'), key=str)
        pairs = [(x, y) for x in st for y in st if x[1] < y[1]]
        if not pairs:
            return
        x, y = (M.Act(*q) for q in pairs[op['r'] % len(pairs)])
        r1 = self.ref.next(r, x)[0][0]
        if not self.legal(r1, y) or not self.legal(self.ref.next(r, y)[0][0], x) or self.p.pred[x.task].count(y.task) or self.p.pred[y.task].count(x.task):
            return
        outs = []
        for first, second in ((x, y), (y, x)):
            n = self.call('get_next_state', self.dom.get_next_state, s, M.real_action(first))
            n = self.call('get_next_state', self.dom.get_next_state, n, M.real_action(second))
            outs.append(n)
        self.stat('order swaps')
        u, v = outs
        pu, pv = M.proj(u), M.proj(v)
        if M.key(pu) != M.key(pv):
            self.fail(['confluence'], f'{x} and {y} in either order give different states: {M.diff(pu, pv)}')
        if not (u == v) or hash(u) != hash(v):
            self.fail(['equality', 'confluence'], f'{x} and {y} in either order give states with the same content '
                                                  f'that are not equal: {u == v}, same hash {hash(u) == hash(v)}')
        self.nodes.append((u, self.ref.next(r1, y)[0][0], pu))

    # ------------------------------------------------------------------------------------------ completion
    def finish(self):
        """Once the faults stop, starting whatever is offered must complete the project."""
        s, r, _ = self.nodes[self.cur]
        if self.ref.terminal(r):
            return
        longest = sum(max(d for m in self.p.modes(i) for d, _ in self.p.durations(i, m)) for i in self.p.tasks)
        bound = max(r.t, self.p.last_change()) + longest + len(self.p.tasks) + 3 - r.t
        ticks = 0
        api = self.spec.get('final_api', 'next')
        self.log = self.log[-6:]
        n = 0
        while True:
            s, r, _ = self.nodes[self.cur]
            if self.ref.terminal(r):
                break
            n += 1
            op = {'op': 'final', 'api': api, 'r': self.spec.get('seed', 0) + n, 's': n}
            if self.p.units:
                a = None
                for k in range(24):
                    c = self.sampled(s, r, n * 101 + k)
                    if c.kind in ('START', 'RESUME'):
                        a = c
                        break
                a = a or M.Act('TIME_PR', tp=True)
            else:
                c = sorted((x for x in self.ref.offered(r) if x[0] in ('START', 'RESUME')), key=str)
                a = M.Act(*c[0]) if c else M.Act('TIME_PR', tp=True)
            self.transition(a, op)
            if a.tp:
                ticks += 1
                if ticks > bound and not self.p.units and all(d.get('renew', True) for d in self.spec['res']):
                    self.fail(['no-progress'], f'not complete {ticks} time steps after the last fault')
                if ticks > 6 * bound + 60:
                    break
        if self.ref.goal(self.nodes[self.cur][1]):
            self.stat('completed projects')

    def epilogue(self):
        """Every state is still the value it was when it was produced."""
        if self.p.inplace:
            return
        by = {}
        for idx, (s, r, pr) in enumerate(self.nodes):
            now = self.call('reading a state', M.proj, s)
            d = M.diff(now, pr)
            if d:
                self.fail(['mutation'], f'state {idx} changed after it was returned (now, then): {d}')
            k = M.key(pr)
            if k in by:
                o = by[k]
                if not (o == s) or hash(o) != hash(s):
                    self.fail(['equality'], f'two states with the same content are not equal ({o == s}) or have '
                                            f'different hashes ({hash(o) == hash(s)})')
            else:
                for o in list(by.values())[-3:]:
                    if o == s:
                        self.fail(['equality'], 'two states with different contents are equal')
                by[k] = s
        for v, pr in getattr(self, 'kept', []):
            d = M.diff(self.call('reading a state', M.proj, v), pr)
            if d:
                self.fail(['mutation'], f'an outcome of a distribution changed afterwards: {d}')
        d = M.diff(self.call('reading a state', M.proj, self.call('get_initial_state', self.dom.get_initial_state)),
                   self.ref.initial().proj())
        if d:
            self.fail(['mutation', 'reset'], f'the initial state changed: {d}')
        self.stat('distinct states', len(by))


# ---------------------------------------------------------------------------------------------- generation
DY = {2: [[.5, .5], [.75, .25], [.25, .75]], 3: [[.5, .25, .25], [.25, .5, .25]]}


def gen(rng, tier, focus):
    big = tier == 'thorough'
    n = rng.randint(2, 7 if big else 5)
    kind = {'C13': 'unc', 'C15': rng.choice(['unc', 'unc', 'sim'])}.get(
        focus, rng.choice(['det', 'det', 'det', 'unc', 'sim']))
    spec = {'kind': kind, 'seed': rng.randrange(10 ** 6)}
    preempt = rng.random() < {'C12': 1, 'C13': .2}.get(focus, .35)
    cond = kind != 'det' and rng.random() < {'C15': 1, 'C13': .4}.get(focus, .25)
    units = rng.random() < {'C09': .3, 'C11': .25, 'C12': .2}.get(focus, .12)
    varying = not units and kind != 'sim' and rng.random() < {'C09': .35, 'C12': .25}.get(focus, .15)
    cal = rng.random() < {'C09': .5, 'C11': .5}.get(focus, .35)
    mixed = not varying and rng.random() < {'C09': .4, 'C12': .4, 'C11': .35}.get(focus, .2)
    costs = rng.random() < {'C10': .4}.get(focus, .1)
    inplace = kind == 'det' and rng.random() < {'C14': .2, 'C10': .15}.get(focus, .08)
    single = rng.random() < .45
    ids = rng.choice([list(range(1, n + 1)), list(range(n)), sorted(rng.sample(range(1, 40), n))])
    res = []
    for j in range(rng.choice([1, 1, 2, 2, 3])):
        cap = rng.randint(1, 4)
        d = {'name': f'r{j + 1}', 'cap': cap, 'renew': True}
        if mixed and j == 0:
            d['renew'] = False
            d['cap'] = cap = rng.randint(2, 12)
        elif cal and rng.random() < .7:
            t1 = rng.randint(1, 5)
            d['cal'] = [[t1, rng.randint(0, cap)], [t1 + rng.randint(1, 4), cap]]
            if rng.random() < .3:
                t2 = d['cal'][1][0] + rng.randint(1, 3)
                d['cal'] += [[t2, rng.randint(0, cap)], [t2 + rng.randint(1, 3), cap]]
        res.append(d)
    spec['res'] = res
    skills = ['s1', 's2']
    if units:
        spec['units'] = []
        for j in range(rng.randint(1, 3)):
            u = {'name': f'u{j + 1}', 'cap': 1, 'renew': True,
                 'skills': {s: rng.randint(1, 2) for s in skills if rng.random() < .7}}
            if cal and rng.random() < .3:
                t1 = rng.randint(1, 5)
                u['cal'] = [[t1, 0], [t1 + rng.randint(1, 3), 1]]
            spec['units'].append(u)
    spec['dur_cls'] = rng.choice(['Univariate', 'Univariate', 'Bounded', 'Uniform', 'Enumerable', 'Multivariate'])
    uniform = spec['dur_cls'] == 'Uniform' and kind == 'unc'
    long = rng.random() < .12
    tasks = []
    mode_ids = rng.choice([[1, 2], [1, 2, 3], [2, 5]])
    for j, i in enumerate(ids):
        t = {'id': i, 'succ': [], 'modes': []}
        zero = rng.random() < .15
        for m in ([1] if single else mode_ids[:rng.randint(1, len(mode_ids))]):
            if kind == 'det':
                dur = 0 if zero else rng.randint(5, 45) if long and rng.random() < .4 else rng.randint(1, 4)
            else:
                k = rng.choice([1, 1, 2, 2, 3])
                vals = rng.sample(range(0, 5) if zero else range(5, 30) if long and rng.random() < .3 else range(1, 5), k)
                dur = [[v, p] for v, p in zip(vals, [1.] if k == 1 else rng.choice(DY[k]))]
                if rng.random() < .1:   # the same duration listed twice
                    v, p = dur[rng.randrange(k)]
                    dur = [[w, q / 2 if w == v else q] for w, q in dur] + [[v, p / 2]]
                if uniform:
                    lo = min(vals)
                    dur = [[v, 1. / k] for v in range(lo, lo + k)]
            mode = {'m': m, 'dur': dur, 'use': {}}
            top = dur if isinstance(dur, int) else max(v for v, _ in dur)
            for d in res:
                if rng.random() < .75:
                    c = d['cap'] if d['renew'] else max(1, d['cap'] // 3)
                    if varying and rng.random() < .7 and top:
                        mode['use'][d['name']] = [rng.randint(0, c) for _ in range(top)]
                    else:
                        mode['use'][d['name']] = rng.randint(0, c)
            if varying and any(isinstance(v, list) for v in mode['use'].values()):
                mode['use'] = {r: v if isinstance(v, list) else [v] * top for r, v in mode['use'].items()}
            if units and rng.random() < .7:
                s = rng.choice(skills)
                tot = sum(u['skills'].get(s, 0) for u in spec['units'])
                if tot:
                    mode['skills'] = {s: rng.randint(1, tot)}
                    if rng.random() < .3:
                        mode['skills'][skills[0] if s == skills[1] else skills[1]] = 0
            if costs:
                mode['cost'] = float(rng.randint(0, 5))
            t['modes'].append(mode)
        if preempt:
            t['preempt'] = rng.random() < .85
            t['resume'] = rng.choice(['Resume', 'Resume', 'Restart'] if not varying else ['Resume'])
            t['returned'] = rng.random() < .5
        tasks.append(t)
    for a in range(n):
        for b in range(a + 1, n):
            if rng.random() < (.5 if b == a + 1 else .2):
                tasks[a]['succ'].append(ids[b])
    if cond:
        conds = list(range(1, rng.choice([1, 2, 2, 3]) + 1))
        producers = {c: [] for c in conds}
        for j in range(max(1, n - 1)):
            if rng.random() < .5 or j == 0:
                ds = []
                for _ in range(rng.choice([1, 1, 1, 2])):
                    k = rng.choice([1, 2, 2, 3])
                    vals = [rng.choice(conds + [99]) for _ in range(k)]
                    vals = list(dict.fromkeys(vals))
                    pr = [1.] if len(vals) == 1 else rng.choice(DY[len(vals)])
                    ds.append([[v, p] for v, p in zip(vals, pr)])
                tasks[j]['compl'] = ds
                for d in ds:
                    for v, _ in d:
                        if v in producers and j not in producers[v]:
                            producers[v].append(j)
        for j in range(1, n):
            ok = [c for c in conds if producers[c] and max(producers[c]) < j]
            if ok and rng.random() < .55:
                cs = rng.sample(ok, min(len(ok), rng.choice([1, 1, 2])))
                tasks[j]['exist'] = cs
        for j in range(n):
            if tasks[j].get('exist') is None and rng.random() < .15:
                tasks[j]['exist'] = []
        for _ in range(n):      # whoever waits for a conditional task also waits for what decides its existence
            for j in range(n):
                if tasks[j].get('exist'):
                    for c in tasks[j]['exist']:
                        for y in producers[c]:
                            for q in tasks[j]['succ']:
                                if q not in tasks[y]['succ'] and q != tasks[y]['id']:
                                    tasks[y]['succ'].append(q)
        if not any(t.get('exist') for t in tasks):
            cond = False
            for t in tasks:
                t.pop('compl', None)
                t.pop('exist', None)
    rng.shuffle(tasks) if rng.random() < .3 else None
    spec['tasks'] = tasks
    spec['preempt'], spec['cond'], spec['inplace'] = preempt, cond, inplace
    spec['obj'] = ['COST'] if costs and rng.random() < .5 else (['MAKESPAN', 'COST'] if costs else ['MAKESPAN'])
    if costs and rng.random() < .3:
        spec['res_costs'] = {d['name']: float(rng.randint(0, 2)) for d in res}
    spec['ids_set'] = rng.random() < .5
    total = sum(max([0] + [m['dur'] if isinstance(m['dur'], int) else max(v for v, _ in m['dur'])
                           for m in t['modes']]) for t in tasks)
    spec['horizon'] = rng.choice([200, 200, 200, 200, 200, max(2, total // 2)])
    spec['force_multi'] = single and rng.random() < .3
    spec['final_api'] = rng.choice(['next', 'dist', 'sample', 'step'])
    spec['cls'] = pick_class(rng, spec, single and not spec['force_multi'], cal, units, varying, mixed, costs)
    kinds = ['start'] * 5 + ['time'] * 4 + ['act'] * 2 + ['sampled'] * 2
    kinds += ['over'] * {'C09': 3}.get(focus, 1)
    if preempt:
        kinds += ['pause'] * {'C12': 5}.get(focus, 2) + ['resume'] * {'C12': 4}.get(focus, 2) + ['over_resume'] * 2
    kinds += ['branch'] * {'C14': 3}.get(focus, 1) + ['ckpt'] * {'C14': 2}.get(focus, 0)
    kinds += ['reset'] * (rng.random() < .3) + ['confl'] * {'C14': 3}.get(focus, 0)
    ops = []
    for _ in range(rng.randint(4, 40 if big else 22)):
        o = {'op': rng.choice(kinds), 'r': rng.randrange(1000), 's': rng.randrange(1000),
             'api': rng.choice(['next', 'next', 'dist', 'sample', 'step'])}
        if o['api'] == 'next':
            o['value'] = True
        if rng.random() < .08:
            o['tp'] = True
        if rng.random() < .3:
            o['nomode'] = True
        ops.append(o)
    spec['ops'] = ops
    return spec


def pick_class(rng, spec, single, cal, units, varying, mixed, costs):
    """A concrete class of the library when one has exactly these features, half of the time."""
    has_cal = any(d.get('cal') for d in spec['res'] + spec.get('units', []))
    if varying or spec['preempt'] or rng.random() < .4:
        return None
    k = spec['kind']
    if k == 'det' and not spec['cond']:
        if units:
            if costs:
                return None
            return 'MultiModeMultiSkillRCPSPCalendar' if has_cal else 'MultiModeMultiSkillRCPSP'
        if single and not mixed and not costs:
            return 'SingleModeRCPSPCalendar' if has_cal else 'SingleModeRCPSP'
        if costs:
            return None if has_cal else 'MultiModeRCPSPWithCost'
        return 'MultiModeRCPSPCalendar' if has_cal else 'MultiModeRCPSP'
    if units or costs:
        return None
    if k == 'unc':
        if spec['cond']:
            return 'SingleModeRCPSP_Stochastic_Durations_WithConditionalTasks' \
                if single and not mixed and not has_cal else None
        if single and not mixed and not has_cal:
            return 'SingleModeRCPSP_Stochastic_Durations'
        if not mixed and not has_cal:
            return 'MultiModeRCPSP_Stochastic_Durations'
        if has_cal:
            return 'MultiModeRCPSPCalendar_Stochastic_Durations'
        return None
    if k == 'sim' and spec['cond'] and single and not mixed and not has_cal:
        return 'SingleModeRCPSP_Simulated_Stochastic_Durations_WithConditionalTasks'
    return None
