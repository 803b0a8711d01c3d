"""Scheduling policies executing projects that turn out differently than planned."""
import copy

from harness import sched as S, sched_model as M
from harness.common import Harness, Outcome, drop_each

METHODS = ['SGS_READY', 'SGS_STRICT', 'SGS_PRECEDENCE', 'SGS_TIME_FREEDOM', 'SGS_INDEX_FREEDOM', 'FOLLOW_GANTT']
PILES = ['MOST_SUCCESSORS', 'SAMPLE_MOST_SUCCESSORS', 'FASTEST', 'TOTALLY_RANDOM']


class Plan:
    """What a policy knows: task order, modes, planned times and unit allocation."""

    def __init__(self, spec, order, modes, times, alloc):
        self.spec, self.order, self.modes, self.times, self.alloc = spec, order, modes, times, alloc

    def start(self, i):
        return M.Act('START', i, self.modes[i], units=sorted(self.alloc[i]) if i in self.alloc and self.alloc[i] else None)


def candidates(method, plan, ref, r, spec):
    """The tasks a policy considers in state r, in its order of preference (None: any order)."""
    ready = [i for i in plan.order if i in r.rem and ref.prec_ok(r, i)]
    if method == 'SGS_READY':
        return ready
    if method == 'FOLLOW_GANTT':
        return [i for i in ready if plan.times is not None and plan.times[i] == r.t]
    if not ready:
        return []
    first = ready[0]
    if method == 'SGS_INDEX_FREEDOM':
        at = plan.order.index(first)
        return [i for i in ready if plan.order.index(i) <= at + spec['di']]
    if plan.times is None:
        return [first]
    t = plan.times[first]
    hi = t + (spec['dt'] if method == 'SGS_TIME_FREEDOM' else 0)
    return [i for i in ready if t <= plan.times[i] <= hi]


def choices(method, plan, ref, r, spec):
    """Acceptable answers: a list of tasks to start, None for waiting."""
    c = candidates(method, plan, ref, r, spec)
    ok = [i for i in c if ref.acceptable(r, plan.start(i))]
    if method == 'FOLLOW_GANTT':        # which of the tasks planned now comes first is free; it may not fit
        return ok + ([None] if len(ok) < len(c) or not c else [])
    return ok[:1] or [None]


class PolicyRun(S.Run):
    def fail(self, fields, detail):
        fields = list(fields)
        self.violations.append(('+'.join(sorted(fields)), detail, {'C19'} if 'policy' in ' '.join(fields) or
                               'exception' in fields else set()))
        raise S.Stop()

    def make(self, dom, ps, plan):
        from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod
        sched = None if plan.times is None else {i: {'start_time': t, 'end_time': t + 1} for i, t in plan.times.items()}
        return PolicyRCPSP(domain=dom,
                           policy_method_params=PolicyMethodParams(getattr(BasePolicyMethod, ps['method']),
                                                                   delta_time_freedom=ps['dt'],
                                                                   delta_index_freedom=ps['di']),
                           permutation_task=list(plan.order), modes_dictionnary=dict(plan.modes), schedule=sched,
                           resource_allocation={i: list(u) for i, u in plan.alloc.items()} if plan.alloc else None)

    def pile(self, name):
        from skdecide.hub.solver.pile_policy.pile_policy import PilePolicy, GreedyChoice
        p = PilePolicy(greedy_method=getattr(GreedyChoice, name))
        p.solve(lambda: M.build(self.p))
        return p

    def plan(self, ps):
        sp = self.spec
        order = list(sp['order'])
        times = None
        if ps['times'] == 'random':
            times = {i: ps['at'][k % len(ps['at'])] for k, i in enumerate(sorted(self.p.tasks))}
        elif ps['times'] == 'planned':
            times = dict(self.planned)
            if ps.get('by_time'):
                order = sorted(order, key=lambda i: (times[i], order.index(i)))
        return Plan(sp, order, {i: sp['modes'][str(i)] for i in self.p.tasks}, times, self.alloc)

    def make_plan(self):
        """Start times of a ready-list execution in which everything takes its first listed duration."""
        q = copy.deepcopy(self.spec)
        q['kind'], q['cond'] = 'det', False
        for t in q['tasks']:
            t.pop('exist', None)
            t.pop('compl', None)
            for m in t['modes']:
                if not isinstance(m['dur'], int):
                    m['dur'] = m['dur'][0][0]
        p = M.Prob(q)
        ref = M.Ref(p)
        plan = Plan(q, list(self.spec['order']), {i: self.spec['modes'][str(i)] for i in p.tasks}, None, self.alloc)
        r = ref.initial()
        while r.rem or r.ong:
            i = choices('SGS_READY', plan, ref, r, {})[0]
            r = ref.next(r, plan.start(i) if i is not None else M.Act('TIME_PR', tp=True))[0][0]
            if r.t > 400:
                break
        self.plan_complete = not r.rem and not r.ong
        return {i: r.tk[i].start if r.tk[i].start is not None else 500 for i in p.tasks}

    def _run(self):
        sp = self.spec
        self.alloc = {int(i): list(u) for i, u in (sp.get('alloc') or {}).items()}
        self.dom = self.call('building the domain', M.build, self.p, seed=sp.get('seed', 0))
        self.planned = self.make_plan()
        self.pols = []
        for ps in sp['policies']:
            plan = self.plan(ps)
            self.pols.append((ps, plan, self.call('building a policy', self.make, self.dom, ps, plan)))
        self.piles = [(n, self.call('solving with the pile policy', self.pile, n)) for n in sp.get('piles', [])]
        if sp.get('piles'):
            self.descendants()
        self.reset()
        for k, op in enumerate(sp['ops']):
            s, r, _ = self.nodes[self.cur]
            if self.ref.terminal(r):
                if op['op'] not in ('branch', 'reset', 'policy'):
                    continue
            if op['op'] == 'policy':
                if not self.ref.terminal(r):
                    self.advance(op)
            else:
                self.fault('action against the policies')
                self.op(op)
        self.drive()
        if sp['kind'] == 'det' and not sp['preempt'] and not self.p.inplace:
            self.replay()
        self.epilogue()

    def descendants(self):
        self.desc = {}
        for i in self.p.tasks:
            seen, todo = set(), list(self.p.succ[i])
            while todo:
                j = todo.pop()
                if j not in seen:
                    seen.add(j)
                    todo += self.p.succ[j]
            self.desc[i] = len(seen)

    def check_state(self, s, r):
        return None         # C09 - C15 judge the domain

    # ------------------------------------------------------------------------------------------ policies
    def ask(self, what, p, s, seed):
        x = self.call(what, p.get_next_action, s, seed=seed)
        self.stat('decisions')
        a = self.call('reading an action', M.from_real, x)
        a.units = a.units or None
        return x, a

    def check(self, name, a, want, plan, r):
        if a.kind == 'TIME_PR':
            got = None
            if not a.tp:
                self.fail(['policy'], f'{name} answers a time progress without time progress at t={r.t}')
        elif a.kind == 'START':
            got = a.task
            if a.tp:
                self.fail(['policy'], f'{name} answers {a} which also lets time pass at t={r.t}')
        else:
            self.fail(['policy'], f'{name} answers {a} at t={r.t}')
        if got not in want:
            self.fail(['policy'], f'{name} answers {a} at t={r.t}, expected '
                                  f'{" or ".join("waiting" if w is None else f"starting {w}" for w in want)}; '
                                  f'remaining={sorted(r.rem)} ongoing={sorted(r.ong)} complete={sorted(r.com)} '
                                  f'order={plan.order} times={plan.times} used={r.used} avail={r.avail} '
                                  f'after {self.log[-4:]}')
        if got is not None:
            ex = plan.start(got)
            if (a.mode, sorted(a.units or ())) != (ex.mode, sorted(ex.units or ())):
                self.fail(['policy'], f'{name} answers {a}, planned {ex}')
        elif a.units:
            self.fail(['policy'], f'{name} answers {a}')

    def consult(self, op):
        """Ask every policy in the current state; the answers."""
        s, r, before = self.nodes[self.cur]
        out = []
        for ps, plan, p in self.pols:
            if ps['method'] == 'FOLLOW_GANTT' and plan.times is None:
                continue
            name = f"{ps['method']}({ps['times']},dt={ps['dt']},di={ps['di']})"
            x, a = self.ask(name, p, s, op.get('s', 0))
            self.check(name, a, choices(ps['method'], plan, self.ref, r, ps), plan, r)
            out.append((x, a))
            if not self.call('is_policy_defined_for', p.is_policy_defined_for, s):
                self.fail(['policy'], f'{name} is not defined at t={r.t}')
        pp = Plan(self.spec, list(self.p.tasks), {i: 1 for i in self.p.tasks}, None, {})
        ok = [i for i in (self.p.tasks if self.piles else ()) if i in r.rem and self.ref.prec_ok(r, i)
              and self.ref.acceptable(r, M.Act('START', i, 1))]
        for n, p in self.piles:
            x, a = self.ask('pile policy ' + n, p, s, op.get('s', 0))
            want = ok
            if ok and n == 'MOST_SUCCESSORS':
                want = [i for i in ok if self.desc[i] == max(self.desc[j] for j in ok)]
            elif ok and n == 'SAMPLE_MOST_SUCCESSORS':
                want = [i for i in ok if self.desc[i] > 0] or ok
            elif ok and n == 'FASTEST':
                d = {i: [x for x, q in self.p.durations(i, 1) if q > 0] for i in ok}
                want = [i for i in ok if min(d[i]) <= min(max(d[j]) for j in ok)]
            self.check('pile policy ' + n, a, want or [None], pp, r)
            out.append((x, a))
        d = M.diff(before, self.call('reading a state', M.proj, s))
        if d:
            self.fail(['policy', 'mutation'], f'asking the policies changed the state: {d}')
        return out

    def advance(self, op):
        out = self.consult(op)
        if not out:
            return None
        x, a = out[op['r'] % len(out)]
        self.given = x
        self.transition(a, op)
        return a

    def legal_plan(self, plan):
        """Every task can start in its planned way when it is alone."""
        for i in self.p.tasks:
            a = plan.start(i)
            if any(self.p.need(i, a.mode, n, 0) > self.p.cap(n, 10 ** 9) for n in self.p.res):
                return False
            if not self.p.renewable_only or not self.ref.skilled(i, a.mode, a.units):
                return False
            if any(self.p.cap(u, 10 ** 9) < 1 for u in a.units or ()):
                return False
        return True

    def drive(self):
        """One policy alone completes the project within a bounded time once capacity is back."""
        sp = self.spec
        if not self.pols:
            return
        ps, plan, p = self.pols[sp.get('driver', 0) % len(self.pols)]
        if ps['method'] == 'FOLLOW_GANTT':
            return
        s, r, _ = self.nodes[self.cur]
        longest = sum(max(d for m in self.p.modes(i) for d, _ in self.p.durations(i, m)) for i in self.p.tasks)
        bound = max(r.t, self.p.last_change()) + longest + len(self.p.tasks) + 3 - r.t
        ticks = 0
        self.p.renewable_only = all(d.get('renew', True) for d in sp['res'])
        sure = self.legal_plan(plan) and not r.pau
        self.log = self.log[-6:]
        while True:
            s, r, _ = self.nodes[self.cur]
            if self.ref.terminal(r):
                break
            op = {'op': 'final', 'api': sp.get('final_api', 'next'), 'r': sp.get('seed', 0) + ticks, 's': ticks * 7 + 1}
            x, a = self.ask(ps['method'], p, s, ticks)
            self.check(ps['method'], a, choices(ps['method'], plan, self.ref, r, ps), plan, r)
            self.given = x
            self.transition(a, op)
            ticks += a.tp
            if ticks > bound:
                if sure:
                    self.fail(['policy', 'no-progress'], f"{ps['method']}: not complete {ticks} time steps after the last fault")
                break
        if self.ref.goal(self.nodes[self.cur][1]):
            self.stat('completed projects')

    def replay(self):
        """Following a complete plan on a project that behaves as planned reproduces the plan."""
        if not self.plan_complete or any(self.p.durations(i, self.spec['modes'][str(i)])[0][0] == 0 for i in self.p.tasks) \
                or max(self.planned[i] for i in self.p.tasks) + 60 > self.p.horizon:
            return
        ps = {'method': 'FOLLOW_GANTT', 'dt': 0, 'di': 0, 'times': 'planned'}
        plan = self.plan(ps)
        p = self.call('building a policy', self.make, self.dom, ps, plan)
        self.reset()
        for n in range(1000):
            s, r, _ = self.nodes[self.cur]
            if self.ref.terminal(r) or r.t > max(plan.times.values()):
                break
            x, a = self.ask('FOLLOW_GANTT', p, s, n)
            self.check('FOLLOW_GANTT', a, [i for i in candidates('FOLLOW_GANTT', plan, self.ref, r, ps)] or [None],
                       plan, r)
            self.given = x
            self.transition(a, {'op': 'final', 'api': 'next', 'r': n, 's': n})
        self.stat('plans replayed')
        r = self.nodes[self.cur][1]
        got = {i: r.tk[i].start for i in self.p.tasks}
        if got != plan.times:
            self.fail(['policy', 'plan'], f'following the plan {plan.times} starts the tasks at {got}')


# ---------------------------------------------------------------------------------------------- generation
def gen_policies(rng, spec):
    ids = [t['id'] for t in spec['tasks']]
    spec['order'] = rng.sample(ids, len(ids))
    spec['modes'] = {str(t['id']): rng.choice(t['modes'])['m'] for t in spec['tasks']}
    if spec.get('units'):
        alloc = {}
        for t in spec['tasks']:
            m = next(m for m in t['modes'] if m['m'] == spec['modes'][str(t['id'])])
            need = {k: v for k, v in m.get('skills', {}).items() if v > 0}
            us = [u['name'] for u in spec['units']]
            rng.shuffle(us)
            have = {k: 0 for k in need}
            got = []
            for u in us:
                if all(have[k] >= v for k, v in need.items()):
                    break
                sk = next(x for x in spec['units'] if x['name'] == u)['skills']
                if any(sk.get(k, 0) for k in need):
                    got.append(u)
                    for k in need:
                        have[k] += sk.get(k, 0)
            if us and len(got) < len(us) and rng.random() < .25:      # more than needed
                got.append(rng.choice([u for u in us if u not in got]))
            if got or rng.random() < .3:
                alloc[t['id']] = got
        if rng.random() < .1 and alloc:
            alloc.pop(rng.choice(sorted(alloc)))
        spec['alloc'] = {str(i): u for i, u in alloc.items()}
    pols = []
    for m in rng.sample(METHODS, rng.randint(2, 5)):
        tm = rng.choice(['planned', 'planned', 'random', 'none'])
        if m == 'FOLLOW_GANTT' and tm == 'none':
            tm = 'planned'
        pols.append({'method': m, 'times': tm, 'by_time': rng.random() < .6, 'at': [rng.randint(0, 8) for _ in ids],
                     'dt': rng.choice([0, 1, 2, 3, 10]), 'di': rng.choice([0, 1, 2, 3, 10])})
    spec['policies'] = pols
    spec['driver'] = rng.randrange(5)
    if all(any(m['m'] == 1 for m in t['modes']) for t in spec['tasks']) and rng.random() < .6:
        spec['piles'] = rng.sample(PILES, rng.randint(1, 2))


def gen(rng, tier):
    spec = S.gen(rng, tier, rng.choice(['C09', 'C10', 'C11', 'C11', 'C13', 'C15', 'C12']))
    spec['inplace'] = False
    gen_policies(rng, spec)
    keep = rng.choice([0, .1, .3])
    ops = []
    for o in spec['ops']:
        ops.append(o if rng.random() < keep else {'op': 'policy', 'r': o['r'], 's': o['s'], 'api': o['api']})
    for _ in range(rng.randint(0, 10)):
        ops.append({'op': 'policy', 'r': rng.randrange(1000), 's': rng.randrange(1000),
                    'api': rng.choice(['next', 'dist', 'sample', 'step'])})
    spec['ops'] = ops
    return spec


class PolicyHarness(Harness):
    retries = 1
    runs = {'quick': 6000, 'thorough': 150000}
    rule = 'every answer of every policy in every state reached equals the reference; a policy alone completes the ' \
           'project; following a plan that holds reproduces it'
    real = ['skdecide.hub.solver.sgs_policies (PolicyRCPSP, all base methods)', 'skdecide.hub.solver.pile_policy',
            'skdecide.builders.scheduling underneath']
    stub = ['the problem data and the plans: generated', 'random: seeded by the simulator before every call']
    assumptions = ['the state handed to the policy is the one observed in the execution']

    def gen(self, rng, tier):
        return gen(rng, tier)

    def execute(self, spec, record=False):
        r = PolicyRun(copy.deepcopy(spec)).execute()
        vs = [(c, d) for c, d, props in r.violations if 'C19' in props]
        st = dict(r.stats)
        sim = max([0] + [n[2]['t'] for n in r.nodes])
        return Outcome(vs, st, dict(r.faults), r.h.hexdigest(), st.get('transitions', 0), float(sim),
                       st.get('decisions', 0) >= 4, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops']):
            yield {**spec, 'ops': ops}
        for ps in drop_each(spec['policies']):
            yield {**spec, 'policies': ps, 'driver': 0}
        for ps in drop_each(spec.get('piles', [])):
            yield {**spec, 'piles': ps}
        for i in range(len(spec['tasks'])):
            if len(spec['tasks']) > 1:
                c = copy.deepcopy(spec)
                gone = c['tasks'].pop(i)['id']
                for u in c['tasks']:
                    u['succ'] = [x for x in u['succ'] if x != gone]
                c['order'] = [x for x in c['order'] if x != gone]
                yield c


CHECKS = {'C19': PolicyHarness()}
