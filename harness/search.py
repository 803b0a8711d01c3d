"""Solvers written in Python which search forward through a domain's own transitions: LazyAstar, LRTAstar, SimpleGreedy.
One solver object solves, fails, is asked, solves again; the domain is a table, every call of it is an event."""
import collections
import contextlib
import hashlib
import io
import json
import math
import random

from harness.common import Harness, Outcome, drop_each

INF = math.inf


class Boom(Exception):
    pass


class Endless(BaseException):
    pass


class St:
    """A state which is equal to others without being the same object."""
    __slots__ = ('i', 'm')

    def __init__(self, i, m):
        self.i, self.m = i, m

    def __eq__(self, o):
        return isinstance(o, St) and o.i == self.i

    def __hash__(self):
        return self.i % self.m if self.m else hash(self.i)

    def __repr__(self):
        return f'St{self.i}'


def wrap(kind, i):
    if kind == 'int':
        return i
    if kind == 'str':
        return '' if i == 0 else 's' * i
    if kind == 'tuple':
        return (i // 3, i % 3)
    if kind == 'same-hash':
        return St(i, 2)
    return St(i, 0)


def distances(m):
    """Cost of the cheapest way to a goal, per state."""
    d = [0. if g else INF for g in m['goals']]
    for _ in d:
        for s, acts in enumerate(m['trans']):
            if not m['goals'][s]:
                for _, t, c in acts:
                    d[s] = min(d[s], c + d[t])
    return d


def gen_table(rng, zero):
    n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    cost = lambda: rng.choice([1, 1, 2, 3, 5] + ([0] if zero else []))
    style = rng.choice(['any', 'chain', 'few', 'many'])
    trans = []
    for s in range(n):
        k = {'any': rng.randint(0, 3), 'chain': rng.randint(1, 3), 'few': rng.choice([0, 1, 1, 2]), 'many': rng.randint(2, 5)}[style]
        trans.append([[a, (s + 1) % n if style == 'chain' and rng.random() < .6 else rng.randrange(n), cost()] for a in range(k)])
    goals = [int(rng.random() < .15) for _ in range(n)]
    if rng.random() < .85:
        goals[rng.randrange(n)] = 1
    m = {'trans': trans, 'goals': goals, 'init': 0 if rng.random() < .7 else rng.randrange(n), 'kind': rng.choice(
        ['int', 'str', 'tuple', 'obj', 'same-hash'])}
    d = distances(m)
    fin = [x for x in d if x < INF]
    big = max(fin, default=0) + 1
    hk = rng.choice(['zero', 'perfect', 'half', 'quarter', 'below', 'any', 'dead', 'const'])
    al = {'perfect': 1, 'half': .5, 'quarter': .25}.get(hk)
    if hk == 'zero':
        h = [0] * n
    elif al:
        h = [al * x if x < INF else big for x in d]
    elif hk == 'dead':
        h = [x if x < INF else 'inf' for x in d]
    elif hk == 'below':
        h = [rng.randint(0, int(x)) if x < INF else rng.randint(0, 9) for x in d]
    elif hk == 'any':
        h = [0 if goals[s] else rng.randint(0, 12) for s in range(n)]
    else:
        h = [7] * n                       # a constant, of goals too
    m['h'], m['hk'] = h, hk
    return m


CONSISTENT = ('zero', 'perfect', 'half', 'quarter', 'dead')
ADMISSIBLE = CONSISTENT + ('below',)


def make_domain(m, run):
    from skdecide import Domain, ImplicitSpace, TransitionValue
    from harness.search_spaces import ListSpace
    from skdecide.builders.domain import SingleAgent, Sequential, DeterministicTransitions, Actions, Goals, Markovian, \
        FullyObservable, PositiveCosts, DeterministicInitialized
    n = len(m['trans'])
    num = {wrap(m['kind'], i): i for i in range(n)}
    state = lambda i: wrap(m['kind'], i)

    class D(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals, Markovian, FullyObservable,
            PositiveCosts, DeterministicInitialized):
        def _get_applicable_actions_from(self, memory):
            run.event('actions', num[memory])
            return ListSpace([('a', k) for k, _, _ in m['trans'][num[memory]]])

        def _get_next_state(self, memory, action):
            run.event('next', num[memory], action)
            return state(self.edge(memory, action)[1])

        def _get_transition_value(self, memory, action, next_state=None):
            run.event('value', num[memory], action, None if next_state is None else num[next_state])
            e = self.edge(memory, action)
            if next_state is not None and num[next_state] != e[1]:
                run.fail('wrong transition', f'the cost of {action} in {memory} is asked for {next_state}')
            return TransitionValue(cost=e[2])

        def edge(self, memory, action):
            for e in m['trans'][num[memory]]:
                if ('a', e[0]) == action:
                    return e
            run.fail('inapplicable action', f'{action} in {memory}')
            raise Boom

        def _is_terminal(self, st):
            return bool(m['goals'][num[st]])

        def _get_goals_(self):
            run.event('goals')
            return ImplicitSpace(lambda o: bool(m['goals'][num[o]]))

        def _is_goal(self, observation):
            run.event('goal', num[observation])
            return bool(m['goals'][num[observation]])

        def _get_initial_state_(self):
            run.event('init')
            return state(m['init'])

        def _get_action_space_(self):
            return ListSpace([('a', k) for k in range(6)])

        def _get_observation_space_(self):
            return ListSpace([state(i) for i in range(n)])
    D.num, D.state = num, staticmethod(state)
    return D


class Run:
    def __init__(self, spec, record=False):
        self.spec, self.record = spec, record
        self.v, self.log = [], []
        self.stats, self.faults = collections.Counter(), collections.Counter()
        self.h = hashlib.blake2b(digest_size=16)
        self.calls, self.steps, self.arm, self.limit = 0, 0, None, INF
        self.n = 0

    def fail(self, cls, detail):
        if not self.v:
            self.v.append((cls, f'op {self.n}: {detail}'))

    def event(self, *what):
        self.steps += 1
        self.calls += 1
        self.h.update(repr(what).encode())
        if self.record:
            self.log.append('    ' + ' '.join(map(str, what)))
        if self.calls > self.limit:
            raise Endless
        if self.arm is not None:
            self.arm -= 1
            if self.arm < 0:
                self.arm = None
                raise Boom('injected')

    def go(self):
        sp = self.spec
        random.seed(sp['seed'])
        doms = [make_domain(m, self) for m in sp['tables']]
        cur = {}
        heur = None
        if sp['h']:
            def heur(domain, st):
                m, D = cur['m'], cur['D']
                self.event('h', D.num[st])
                x = m['h'][D.num[st]]
                return INF if x == 'inf' else x
        kw = {}
        if sp['from'] is not None:
            kw['from_state'] = doms[0].state(sp['from'] % len(sp['tables'][0]['trans']))
        if sp['alg'] == 'lazy':
            from skdecide.hub.solver.lazy_astar import LazyAstar
            sol = LazyAstar(heuristic=heur, weight=sp['weight'], **kw)
        else:
            from skdecide.hub.solver.lrtastar import LRTAstar
            sol = LRTAstar(heuristic=heur, max_iter=sp['max_iter'], max_depth=sp['max_depth'], verbose=sp['verbose'], **kw)
        solved = False
        for self.n, op in enumerate(sp['ops']):
            if self.record:
                self.log.append(f'op {self.n}: {op}')
            self.h.update(repr(op).encode())
            if op[0] == 'solve':
                _, j, arm, how = op
                j %= len(doms)
                m, D = sp['tables'][j], doms[j]
                cur.update(m=m, D=D, start=m['init'] if sp['from'] is None else sp['from'] % len(sp['tables'][0]['trans']))
                self.calls, self.arm = 0, arm
                n = len(m['trans'])
                e = sum(map(len, m['trans']))
                if sp['alg'] == 'lazy':
                    self.limit = 20 * (n + 1) * (e + 1) + 100
                else:
                    self.limit = (sp['max_iter'] + 3) * (sp['max_depth'] + 2) * (4 * max(map(len, m['trans']), default=0) + 6) + 100
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        if how:
                            D.solve_with(sol, D)
                        else:
                            sol.solve(D)
                    solved = True
                    if arm is not None and self.arm is None:
                        self.fail('swallowed', 'the failure of the domain did not reach the caller of solve')
                except Boom as x:
                    solved = False
                    self.faults['domain raises'] += 1
                except Endless:
                    self.fail('no end', f'more than {self.limit} calls of the domain')
                    return
                except Exception as x:
                    self.crash('solve', x)
                    return
                self.arm, self.limit = None, INF
                self.stats['solves'] += 1
                if solved:
                    self.judge(sol, m, D, cur['start'])
            elif op[0] == 'ask' and solved:
                self.judge(sol, cur['m'], cur['D'], cur['start'])
            elif op[0] == 'utility' and solved:
                self.utility(sol, cur['m'], cur['D'], op[1] % len(cur['m']['trans']))
            if self.v:
                return

    def crash(self, what, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        self.fail('raises', f'{what}: {type(e).__name__}: {e} ({tb.filename.split("/")[-1]}:{tb.name})')

    # ------------------------------------------------------------------------------------------ what the answers mean
    def utility(self, sol, m, D, i):
        try:
            return sol.get_utility(D.state(i))
        except Exception as e:
            self.crash('get_utility', e)

    def follow(self, sol, m, D, start):
        """The run of the policy: (reached a goal, cost, visited), or None if it breaks off."""
        s, cost, seen = start, 0, []
        while not m['goals'][s]:
            if s in seen:
                return None, cost, seen
            o = D.state(s)
            if not sol.is_policy_defined_for(o):
                return None, cost, seen
            seen.append(s)
            a = sol.get_next_action(o)
            e = [x for x in m['trans'][s] if ('a', x[0]) == a]
            if not e:
                self.fail('inapplicable action', f'the policy does {a} in {o}')
                return None, cost, seen
            cost += e[0][2]
            s = e[0][1]
        return True, cost, seen + [s]

    def judge(self, sol, m, D, start):
        sp = self.spec
        d = distances(m)
        try:
            ok, cost, seen = self.follow(sol, m, D, start)
            defined = sol.is_policy_defined_for(D.state(start))
        except Exception as e:
            self.crash('policy', e)
            return
        if self.v:
            return
        hk = m['hk'] if sp['h'] else 'zero'
        self.h.update(repr((ok, cost, seen)).encode())
        if m['goals'][start]:
            self.stats['start is a goal'] += 1
        elif d[start] == INF:
            self.stats['no goal in reach'] += 1
            if defined:
                self.fail('a policy without a goal', f'the policy is defined in {start}, from which no goal can be reached')
        else:
            self.stats['goal in reach'] += 1
            if sp['alg'] == 'lazy':
                if not ok:
                    self.fail('no way to the goal', f'the policy breaks off after {seen}, a goal can be reached')
                elif hk in CONSISTENT and cost > max(1, sp['weight']) * d[start] + 1e-9:
                    self.fail('costly way', f'the way found costs {cost}, the cheapest {d[start]}, weight {sp["weight"]}')
                else:
                    rest = cost
                    for i, s in enumerate(seen):
                        u = self.utility(sol, m, D, s)
                        if not self.v and abs(u - rest) > 1e-9:
                            self.fail('wrong utility', f'the utility of {s} on the way {seen} is {u}, the rest of the way costs {rest}')
                        if self.v:
                            return
                        if i + 1 < len(seen):
                            a = sol.get_next_action(D.state(s))
                            rest -= [x for x in m['trans'][s] if ('a', x[0]) == a][0][2]
            else:
                if defined and not ok:
                    self.fail('no way to the goal', f'the policy is defined in {start} and breaks off after {seen}')
                elif ok and len(seen) - 1 > sp['max_depth']:
                    self.fail('deeper than allowed', f'{len(seen) - 1} actions, allowed {sp["max_depth"]}')
                elif hk in CONSISTENT and sp['max_iter'] >= 400 and sp['max_depth'] >= len(m['trans']):
                    self.stats['converged'] += 1
                    if not ok:
                        self.fail('no way to the goal', f'no policy in {start}, a goal can be reached')
                    elif cost > d[start] + 1e-9:
                        self.fail('costly way', f'the way found costs {cost}, the cheapest {d[start]}')
                    elif abs(self.utility(sol, m, D, start) - d[start]) > 1e-9:
                        self.fail('wrong utility', f'the utility of the start is {sol.get_utility(D.state(start))}, not {d[start]}')
        if self.v:
            return
        if sp['alg'] == 'lrta' and hk in ADMISSIBLE:
            for s in range(len(m['trans'])):
                u = self.utility(sol, m, D, s)
                if not self.v and u > d[s] + 1e-9:
                    self.fail('utility above the true cost', f'state {s}: {u}, the cheapest way to a goal costs {d[s]}')
        if sp['alg'] == 'lazy' and hk in ADMISSIBLE:
            # what is not on the way is estimated by the heuristic
            for s in range(len(m['trans'])):
                if s not in seen and not self.v:
                    u = self.utility(sol, m, D, s)
                    h = (0 if not sp['h'] else INF if m['h'][s] == 'inf' else m['h'][s])
                    if not self.v and u != h:
                        self.fail('wrong utility', f'state {s} is not on the way {seen}: utility {u}, heuristic {h}')


class Search(Harness):
    runs = {'quick': 24000, 'thorough': 1000000}
    rule = 'a run in which the solver called the domain more than three times'
    real = ['skdecide/hub/solver/lazy_astar', 'skdecide/hub/solver/lrtastar', 'skdecide/hub/solver/simple_greedy', 'skdecide/core.py',
            'skdecide/solvers.py', 'skdecide/builders']
    stub = ['domain: a generated table; its calls are the events of the history and can fail']
    assumptions = ['optimality is claimed for consistent heuristics which are 0 in goals; of LRTA* for positive costs and '
                   'enough trials']

    def gen(self, rng, tier):
        alg = rng.choice(['lazy', 'lazy', 'lrta', 'lrta', 'lrta', 'greedy'])
        if alg == 'greedy':
            return gen_greedy(rng)
        spec = {'alg': alg, 'seed': rng.getrandbits(32), 'h': int(rng.random() < .8),
                'tables': [gen_table(rng, alg == 'lazy') for _ in range(rng.choice([1, 1, 2]))],
                'weight': rng.choice([1., 1., 1., 2., 5.]), 'from': rng.randrange(8) if rng.random() < .25 else None,
                'verbose': rng.random() < .1}
        if spec['from'] is not None:
            spec['tables'] = spec['tables'][:1]
        if alg == 'lrta':
            spec['max_iter'] = rng.choice([400, 400, 400, 0, 1, 2, 5, 20])
            spec['max_depth'] = rng.choice([8, 8, 12, 3, 1])
        ops = [['solve', 0, None, rng.randrange(2)]]
        for _ in range(rng.choice([0, 1, 2, 3])):
            k = rng.random()
            ops.append(['ask'] if k < .2 else ['utility', rng.randrange(8)] if k < .35 else
                       ['solve', rng.randrange(2), rng.choice([0, 1, 2, 3, 5, 8, 13]) if rng.random() < .3 else None, rng.randrange(2)])
        if rng.random() < .2:
            ops[0][2] = rng.randrange(12)
        spec['ops'] = ops
        return spec

    def execute(self, spec, record=False):
        r = GreedyRun(spec, record) if spec['alg'] == 'greedy' else Run(spec, record)
        r.go()
        st = dict(r.stats)
        if record:
            r.log.insert(0, json.dumps(spec))
        return Outcome(r.v, st, dict(r.faults), r.h.hexdigest(), r.steps, 0., r.steps > 3, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        for i, o in enumerate(spec['ops']):
            if o[0] == 'solve' and o[2] is not None:
                yield {**spec, 'ops': spec['ops'][:i] + [[o[0], o[1], None, o[3]]] + spec['ops'][i + 1:]}
        if spec['alg'] == 'greedy':
            m = spec['table']
            for i, s in enumerate(m['trans']):
                for t in drop_each(s, 1):
                    yield {**spec, 'table': {**m, 'trans': m['trans'][:i] + [t] + m['trans'][i + 1:]}}
            return
        if len(spec['tables']) > 1:
            for t in spec['tables']:
                yield {**spec, 'tables': [t]}
        if spec['h']:
            yield {**spec, 'h': 0}
        if spec['weight'] != 1:
            yield {**spec, 'weight': 1.}
        for k, m in enumerate(spec['tables']):
            def put(x):
                return {**spec, 'tables': spec['tables'][:k] + [x] + spec['tables'][k + 1:]}
            if spec['h'] and m['hk'] not in ('zero', 'const', 'any'):
                pass
            elif not spec['h'] or m['hk'] == 'zero':
                n = len(m['trans'])
                for s in range(n - 1, 0, -1):
                    if s != m['init'] and all(e[1] != s for t in range(n) if t != s for e in m['trans'][t]):
                        ren = lambda x: x - (x > s)
                        yield put({**m, 'trans': [[[a, ren(t), c] for a, t, c in acts if t != s] for i, acts in enumerate(m['trans']) if i != s],
                                   'goals': m['goals'][:s] + m['goals'][s + 1:], 'init': ren(m['init']), 'h': m['h'][:s] + m['h'][s + 1:]})
                for i, acts in enumerate(m['trans']):
                    for t in drop_each(acts):
                        yield put({**m, 'trans': m['trans'][:i] + [t] + m['trans'][i + 1:]})
                    for j, (a, t, c) in enumerate(acts):
                        if c not in (0, 1):
                            yield put({**m, 'trans': m['trans'][:i] + [acts[:j] + [[a, t, 1]] + acts[j + 1:]] + m['trans'][i + 1:]})
            if m['kind'] != 'int':
                yield put({**m, 'kind': 'int'})


# ---------------------------------------------------------------------------------------------------- the greedy one
def gen_greedy(rng):
    n = rng.choice([1, 2, 3, 5])
    trans = []
    for s in range(n):
        acts = []
        for a in rng.sample(range(6), rng.randint(1, 4)):
            outs = rng.sample(range(n), rng.randint(1, min(n, 3)))
            w = [rng.choice([1, 1, 2, 4]) for _ in outs]
            acts.append([a, [[t, x / sum(w), rng.choice([-5, -1, 0, 1, 2, 3, 7])] for t, x in zip(outs, w)], rng.choice([-4, -1, 0, 0, 2, 5])])
        trans.append(acts)
    return {'alg': 'greedy', 'seed': rng.getrandbits(32), 'table': {'trans': trans, 'dep': rng.randrange(2), 'conc': rng.randrange(2),
                                                                    'mem': rng.randrange(2), 'cost': rng.randrange(2)},
            'ops': [['ask', rng.randrange(n)] for _ in range(rng.randint(1, 5))]}


class GreedyRun(Run):
    def go(self):
        from skdecide import Domain, TransitionValue, DiscreteDistribution
        from harness.search_spaces import ListSpace
        from skdecide.builders.domain import SingleAgent, Sequential, Parallel, EnumerableTransitions, Actions, Markovian, History, \
            FullyObservable, Rewards, DeterministicInitialized
        from skdecide.hub.solver.simple_greedy import SimpleGreedy
        m, run = self.spec['table'], self
        last = (lambda x: x) if m['mem'] == 0 else (lambda x: x[-1])
        one = (lambda a: a) if m['conc'] == 0 else (lambda a: a[0])

        class D(Domain, SingleAgent, Parallel if m['conc'] else Sequential, EnumerableTransitions, Actions,
                Markovian if m['mem'] == 0 else History, FullyObservable, Rewards, DeterministicInitialized):
            def entry(self, memory, action):
                for e in m['trans'][last(memory)]:
                    if e[0] == one(action):
                        return e
                run.fail('inapplicable action', f'{action} in {memory}')
                raise Boom

            def _get_applicable_actions_from(self, memory):
                run.event('actions', last(memory))
                return ListSpace([e[0] for e in m['trans'][last(memory)]])

            def _get_next_state_distribution(self, memory, action):
                run.event('next', last(memory), one(action))
                return DiscreteDistribution([(t, p) for t, p, _ in self.entry(memory, action)[1]])

            def _get_transition_value(self, memory, action, next_state=None):
                run.event('value', last(memory), one(action), next_state)
                e = self.entry(memory, action)
                r = [x for t, _, x in e[1] if t == next_state][0] if m['dep'] else e[2]
                return TransitionValue(cost=-r) if m['cost'] else TransitionValue(reward=r)

            def _is_transition_value_dependent_on_next_state_(self):
                return bool(m['dep'])

            def _is_terminal(self, st):
                return False

            def _get_initial_state_(self):
                return 0

            def _get_action_space_(self):
                return ListSpace(list(range(6)))

            def _get_observation_space_(self):
                return ListSpace(list(range(len(m['trans']))))
        sol = SimpleGreedy()
        try:
            D.solve_with(sol, D)
            for self.n, (_, s) in enumerate(self.spec['ops']):
                s %= len(m['trans'])
                if not sol.is_policy_defined_for(s):
                    self.fail('no policy', f'in {s}')
                a = one(sol.get_next_action(s))
                worth = {e[0]: sum(p * r for _, p, r in e[1]) if m['dep'] else e[2] for e in m['trans'][s]}
                self.event('answer', s, a)
                self.stats['greedy answers'] += 1
                if a not in worth:
                    self.fail('inapplicable action', f'{a} in {s}')
                elif worth[a] < max(worth.values()) - 1e-9:
                    self.fail('not the best', f'in {s} action {a} is expected to bring {worth[a]}, of {worth}')
                if self.v:
                    return
        except Boom:
            pass
        except Exception as e:
            self.crash('greedy', e)


CHECKS = {'C27': Search()}
