"""Explored domains: state spaces explored into graph domains under limits and faults, graph domains as domains, their merging, and
policies evaluated exactly and by rollouts whose chance is the simulator's."""
import contextlib
import dataclasses
import io
import types
from fractions import Fraction
from importlib import import_module as im

from harness.common import Harness, Outcome, drop_each
from harness.local import Base, Boom, hsh

HUB = 'skdecide.hub.solver.'


@dataclasses.dataclass(frozen=True)
class At:
    """a state: equal by its number, of no order"""
    n: int
    same: bool = False

    def __hash__(self):
        return 7 if self.same else hash((11, self.n))

    def __repr__(self):
        return f's{self.n}'


@dataclasses.dataclass(frozen=True)
class Go:
    n: int

    def __repr__(self):
        return f'a{self.n}'


class ExploreRun(Base):
    def go(self):
        sp = self.spec
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            self.S = [At(i, sp['same']) for i in range(len(sp['acts']))]
            self.dom = self.domain()
            self.explorers, self.graphs = {}, []
            for self.n, op in enumerate(sp['ops']):
                try:
                    getattr(self, 'op_' + op['do'])(op)
                except Boom:
                    self.fail('raises', 'Boom out of time')
                except Exception as e:
                    self.crash(op['do'], e)
                if self.v:
                    return

    def armed(self, op, f):
        self.arm = op.get('boom')
        try:
            r = f()
        except Boom:
            self.faults['the domain fails'] += 1
            return None
        if 'boom' in op and self.arm is None:
            self.fail('fault swallowed', op['do'])
            return None
        self.arm = None
        return [r]

    # -- the domain
    def actions(self, i):
        return [Go(j) for j in range(len(self.spec['acts'][i]))]

    def succ(self, i, j):
        """successors of action j of state i, with their probabilities"""
        d = {}
        for s, w, _ in self.spec['acts'][i][j]:
            if w:
                d[s] = d.get(s, 0) + w / 8
        return d

    def cost(self, i, j, k):
        return next((c for s, w, c in self.spec['acts'][i][j] if s == k), None)

    def domain(self):
        sk = im('skdecide')
        run, sp, S = self, self.spec, self.S
        base = sk.DeterministicPlanningDomain if sp['kind'] == 'det' else sk.GoalMDPDomain

        class Menu(sk.EnumerableSpace):
            def __init__(self, acts):
                self.acts = acts

            def contains(self, x):
                return x in self.acts

            def get_elements(self):
                return self.acts

        class Chance(sk.DiscreteDistribution):
            def sample(self):
                vals = [(s, p) for s, p in self.get_values() if p]
                x, run.draws = hsh(sp['salt'], 'draw', run.draws) % 8, run.draws + 1
                for s, p in vals:
                    x -= p * 8
                    if x < 0:
                        break
                run.trail.append(('to', s))
                run.event('drawn', s)
                return s

        class Dom(base):
            T_state, T_observation, T_event, T_value, T_info = At, At, Go, float, None

            def _get_next_state(self, memory, action):
                run.event('next', memory, action)
                return S[sp['acts'][memory.n][action.n][0][0]]

            def _get_next_state_distribution(self, memory, action):
                run.event('distribution', memory, action)
                return Chance([(S[s], w / 8) for s, w, _ in sp['acts'][memory.n][action.n]])

            def _get_transition_value(self, memory, action, next_state=None):
                run.event('value', memory, action, next_state)
                return sk.TransitionValue(cost=run.cost(memory.n, action.n, next_state.n))

            def _is_terminal(self, state):
                run.event('terminal', state)
                return state.n in sp['terminal']

            def _get_applicable_actions_from(self, memory):
                run.event('actions', memory)
                run.order.append(memory.n)
                return Menu(run.actions(memory.n))

            def _get_action_space_(self):
                return sk.ImplicitSpace(lambda a: True)

            def _get_goals_(self):
                return sk.ImplicitSpace(lambda o: o.n in sp['goals'])

            def _get_initial_state_(self):
                run.trail.append(('start',))
                return S[sp['init']]

            def _get_observation_space_(self):
                return sk.ImplicitSpace(lambda o: True)
        if sp['kind'] == 'det':
            del Dom._get_next_state_distribution
        else:
            del Dom._get_next_state
        self.order, self.trail, self.draws = [], [], 0
        return Dom()

    # -- explorations
    def explorer(self, op):
        key = (op['how'], op['edges'], op['nodes'], op['path'], op['score'])
        if key not in self.explorers:
            kw = {k: op[v] for k, v in (('max_edges', 'edges'), ('max_nodes', 'nodes'), ('max_path', 'path')) if op[v] is not None}
            if op['how'] == 'unc':
                cls = im(HUB + 'graph_explorer.DFS_Uncertain_Exploration').DFSExploration
                if op['score'] is not None:
                    kw['score_function'] = self.scores(op)
            else:
                cls = im(HUB + 'graph_explorer.FullSpaceExploration').FullSpaceExploration if op['how'] == 'full' else \
                    im(HUB + 'graph_explorer.DFSExploration').DFSExploration
            self.explorers[key] = cls(self.dom, **kw)
        else:
            self.stats['explorers used again'] += 1
        return self.explorers[key]

    def score(self, op, i):
        return {'same': 0, 'few': hsh(self.spec['salt'], 'score', i) % 3}.get(op['score'], hsh(self.spec['salt'], 'score', i) % 1000)

    def scores(self, op):
        def f(s):
            self.event('score', s)
            return self.score(op, s.n)
        return f

    def op_explore(self, op):
        sp = self.spec
        e = self.explorer(op)
        self.order = []
        kw = {}
        start = sp['init']
        if op['from'] is not None:
            start = op['from'] % len(self.S)
            kw['init_state'] = self.S[start]
        if op['how'] == 'dfs' and op.get('talk') is not None:
            kw['verbose'] = op['talk']
        if op['how'] == 'dfs' and op.get('own'):
            kw['transition_extractor'] = lambda s, a, s2: {'cost': 1 + self.cost(s.n, a.n, s2.n), 'of': (s, a, s2)}
        r = self.armed(op, lambda: e.build_graph_domain(**kw))
        if r is None or self.v:
            return
        g, order = r[0], list(dict.fromkeys(self.order))
        self.stats['explorations'] += 1
        closed = lambda i: i in sp['terminal'] or i in sp['goals']
        # how the exploration should have gone
        seen, edges, paths = {start}, 0, 0
        stop = False
        done = set()
        for i in order:
            if stop:
                return self.fail('limits', f'goes on after {len(seen)} states, {edges} transitions, {paths} to goals: {op}')
            if i not in seen or (closed(i) and not (i == start and i not in sp['terminal'])):
                return self.fail('explores elsewhere', f's{i} of {order}')
            if op['how'] == 'unc' and op['score'] is not None:
                best = min(self.score(op, x) for x in seen - done if not closed(x))
                if self.score(op, i) != best:
                    return self.fail('order of scores', f's{i} has {self.score(op, i)}, there is {best}')
            done.add(i)
            for j in range(len(sp['acts'][i])):
                for k in self.succ(i, j):
                    seen.add(k)
                    edges += 1
                    paths += k in sp['goals']
            big = lambda what, n: op[what] is not None and n > op[what]
            if op['how'] == 'unc':
                stop = big('nodes', len(seen)) or big('edges', edges)
            else:
                stop = big('path', paths) or (paths > 0 and (big('nodes', len(seen)) or big('edges', edges)))
        left = [i for i in seen - done if not closed(i)]
        if left and not stop:
            return self.fail('not explored', f'{left} of {sorted(seen)} with {edges} transitions and {paths} to goals: {op}')
        if left:
            self.stats['explorations stopped by limits'] += 1
        model = {'how': op['how'], 'start': start, 'seen': seen, 'done': done, 'own': bool(op['how'] == 'dfs' and op.get('own')),
                 'next': {i: {j: self.succ(i, j) for j in range(len(sp['acts'][i]))} for i in done}}
        self.check(g, model)
        if not self.v and not model['own']:
            self.graphs.append((g, model))

    def check(self, g, m):
        sp, S = self.spec, self.S
        unc = m['how'] == 'unc'
        if unc:
            keys, known = {s.n for s in g.next_state_map}, {s.n for s in g.state_terminal}
            if known != m['seen'] or {s.n for s in g.state_goal} != m['seen'] or not keys <= m['seen']:
                return self.fail('states of the graph', f'{sorted(known)} and {sorted(keys)}, explored: {sorted(m["seen"])}')
        elif {s.n for s in g.next_state_map} != m['seen'] or {s.n for s in g.next_state_attributes} != m['seen']:
            return self.fail('states of the graph', f'{sorted(s.n for s in g.next_state_map)}, explored: {sorted(m["seen"])}')
        for i in sorted(m['seen']):
            s = S[i]
            acts = list(g.get_applicable_actions(s).get_elements())
            want = m['next'].get(i, {})
            if len(acts) != len(want) or {a.n for a in acts} != set(want):
                return self.fail('actions of the graph', f'{s}: {acts}, explored: {sorted(want)}')
            for j in range(len(sp['acts'][i]) + 1):
                if bool(g.is_applicable_action(Go(j), s)) != (j in want) or bool(g.get_applicable_actions(s).contains(Go(j))) != (j in want):
                    return self.fail('actions of the graph', f'{Go(j)} in {s}')
            if acts and g.get_applicable_actions(s).sample() not in acts:
                return self.fail('actions of the graph', f'sampled in {s}')
            if bool(g.is_goal(s)) != (i in sp['goals']) or bool(g.get_goals().contains(s)) != (i in sp['goals']):
                return self.fail('goals of the graph', f'{s}: {g.is_goal(s)}')
            if unc and bool(g.is_terminal(s)) != (i in sp['terminal'] or not want):
                return self.fail('terminal states of the graph', f'{s}: {g.is_terminal(s)}')
            if not unc and i in sp['goals'] and not g.is_terminal(s):
                return self.fail('terminal states of the graph', f'the goal {s} is not')
            for j, succ in want.items():
                a = Go(j)
                if unc:
                    vals = list(g.get_next_state_distribution(s, a).get_values())
                    if len(vals) != len(succ) or {x.n: p for x, p in vals} != succ:
                        return self.fail('transitions of the graph', f'{s}, {a}: {vals}, the domain has {succ}')
                else:
                    x = g.get_next_state(s, a)
                    if {x.n: 1} != succ:
                        return self.fail('transitions of the graph', f'{s}, {a}: {x}, the domain has {succ}')
                for k in succ:
                    c = g.get_transition_value(s, a, S[k]).cost
                    if c != self.cost(i, j, k) + m['own']:
                        return self.fail('costs of the graph', f'{s}, {a}, {S[k]}: {c}, the domain has {self.cost(i, j, k)}')
                    if m['own'] and g.next_state_attributes[s][a].get('of') != (s, a, S[k]):
                        return self.fail('attributes of the graph', f'{s}, {a}')
        if unc:
            nx = g.to_networkx()
            name = {v: d['state'].n for v, d in nx.nodes(data=True)}
            if sorted(name.values()) != sorted(m['seen']):
                return self.fail('states of the network', f'{sorted(name.values())}, explored: {sorted(m["seen"])}')
            want = {}
            for i, acts in m['next'].items():
                for j, succ in acts.items():
                    for k, p in succ.items():
                        want.setdefault((i, k), []).append((j, p, self.cost(i, j, k)))
            got = {(name[u], name[v]): (d['action'].n, d['proba'], d['cost']) for u, v, d in nx.edges(data=True)}
            if set(got) != set(want) or any(got[e] not in want[e] for e in want):
                return self.fail('transitions of the network', f'{got}, explored: {want}')

    def op_merge(self, op):
        if len(self.graphs) < 2 or self.spec['kind'] == 'unc':
            return
        g, m = self.graphs[op['a'] % len(self.graphs)]
        h, n = self.graphs[op['b'] % len(self.graphs)]
        r = g.merge(h)
        self.event('merge', sorted(m['seen']), sorted(n['seen']))
        self.stats['merges'] += 1
        both = dict(m, seen=m['seen'] | n['seen'], next={**m['next'], **n['next']})
        for i in both['seen']:
            s = self.S[i]
            got = {a.n: r.get_next_state(s, a).n for a in r.get_applicable_actions(s).get_elements()}
            if got != {j: next(iter(d)) for j, d in both['next'].get(i, {}).items()}:
                return self.fail('merged transitions', f'{s}: {got}')
            for j in got:
                if r.get_transition_value(s, Go(j), self.S[got[j]]).cost != self.cost(i, j, got[j]):
                    return self.fail('merged costs', f'{s}, a{j}')
            if bool(r.is_goal(s)) != (i in self.spec['goals']):
                return self.fail('merged goals', f'{s}: {r.is_goal(s)}')
        for x, y in self.graphs:
            if not self.v:
                self.check(x, y)
        self.graphs.append((r, both))

    def op_reachable(self, op):
        sp = self.spec
        f = im(HUB + 'graph_explorer.FullSpaceExploration').reachable_states
        start = sp['init'] if op['from'] is None else op['from'] % len(self.S)
        r = self.armed(op, lambda: f(types.SimpleNamespace(_domain=self.dom), self.S[start]))
        if r is None or self.v:
            return
        want, stack = {start}, [start]
        while stack:
            i = stack.pop()
            if i not in sp['terminal']:
                for j in range(len(sp['acts'][i])):
                    for k in self.succ(i, j):
                        if k not in want:
                            want.add(k)
                            stack.append(k)
        self.stats['reachable states'] += len(want)
        if {s.n for s in r[0]} != want or len(r[0]) != len(want):
            return self.fail('reachable states', f'{r[0]}, the domain has {sorted(want)}')

    def op_targets(self, op):
        if not self.graphs or self.spec['kind'] == 'unc':
            return
        g, m = self.graphs[op['a'] % len(self.graphs)]
        was = g.targets
        new = [s for s in self.S if s.n in m['seen'] and hsh(op['b'], s.n) % 2]
        g.set_sources_targets([self.S[m['start']]], new) if op['b'] % 2 else g.set_nodes_target(new)
        bare = im(HUB + 'graph_explorer.GraphDomain').GraphDomain(g.next_state_map, g.next_state_attributes)
        for i in sorted(m['seen']):
            s = self.S[i]
            if (bool(g.is_goal(s)), bool(g.is_terminal(s)), bool(g.get_goals().contains(s))) != (s in new,) * 3:
                return self.fail('chosen targets', f'{s} of {new}')
            if bare.is_goal(s) or bare.is_terminal(s) or not all(g.get_action_space().contains(a) for a in self.actions(i)):
                return self.fail('targets of a graph without', f'{s}')
        if op['b'] % 2 and list(g.sources) != [self.S[m['start']]]:
            return self.fail('chosen sources', f'{g.sources}')
        g.set_nodes_target(was)
        self.stats['targets'] += 1

    # -- policies
    def policy(self, op):
        run = self

        class Policy:
            def get_next_action(self, observation):
                run.event('asked', observation)
                run.trail.append(('at', observation))
                return Go(run.choice(op, observation.n))
        return Policy()

    def choice(self, op, i):
        return hsh(self.spec['salt'], 'policy', op['policy'], i) % len(self.spec['acts'][i])

    def reach(self, op):
        sp = self.spec
        seen, stack = set(), [sp['init']]
        while stack:
            i = stack.pop()
            if i in seen:
                continue
            seen.add(i)
            if i not in sp['terminal']:
                stack.extend(self.succ(i, self.choice(op, i)))
        return seen

    def op_exact(self, op):
        sp = self.spec
        pe = im(HUB + 'policy_evaluators.policy_evaluator')
        r = self.armed(op, lambda: pe.compute_expected_cost_for_policy(self.dom, self.policy(op)))
        if r is None or self.v:
            return
        values, acts, preds, succs = r[0]
        self.stats['policies evaluated exactly'] += 1
        seen = self.reach(op)
        inner = {i for i in seen if i not in sp['terminal']}
        if {s.n: a.n for s, a in acts.items()} != {i: self.choice(op, i) for i in inner}:
            return self.fail('actions of the policy', f'{acts}')
        for i in inner:
            d = self.succ(i, self.choice(op, i))
            got = {}
            for s, p in succs[self.S[i]]:
                if p:
                    got[s.n] = got.get(s.n, 0) + p
            if got != d:
                return self.fail('successors of the policy', f's{i}: {got}, the domain has {d}')
        if {s.n for s in succs} != inner:
            return self.fail('successors of the policy', f'of {sorted(s.n for s in succs)}')
        for i in seen:
            want = {k for k in inner if i in self.succ(k, self.choice(op, k))}
            if {s.n for s in preds.get(self.S[i], ())} != want:
                return self.fail('predecessors of the policy', f's{i}: {preds.get(self.S[i])}, the domain has {want}')
        want = {i: Fraction(0) for i in seen if i in sp['goals']}
        more = True
        while more:
            more = False
            for i in inner:
                j = self.choice(op, i)
                d = self.succ(i, j)
                if i not in want and all(k in want for k in d):
                    want[i] = sum(Fraction(p) * (self.cost(i, j, k) + want[k]) for k, p in d.items())
                    more = True
        self.stats['values of the policy left out'] += len(seen) - len(want)
        got = {s.n: v for s, v in values.items()}
        if set(got) != set(want) or any(abs(got[i] - want[i]) > 1e-9 * (1 + abs(want[i])) for i in want):
            return self.fail('values of the policy', f'{got}, expected {({i: float(x) for i, x in want.items()})}')

    def ends(self, op):
        """the policy gets to a goal or a terminal state, wherever it gets"""
        sp = self.spec
        seen = self.reach(op)
        good = {i for i in seen if i in sp['terminal'] or i in sp['goals']}
        more = True
        while more:
            new = {i for i in seen - good if any(k in good for k in self.succ(i, self.choice(op, i)))}
            good |= new
            more = bool(new)
        return good == seen

    def op_rollouts(self, op):
        sp = self.spec
        if sp['init'] in sp['terminal'] or not self.ends(op):
            return
        pe = im(HUB + 'policy_evaluators.policy_evaluator')
        self.trail = []
        r = self.armed(op, lambda: pe.rollout_based_compute_expected_cost_for_policy(self.dom, self.policy(op), op['n']))
        if r is None or self.v:
            return
        values, acts, preds, succs = r[0]
        self.stats['policies evaluated by rollouts'] += 1
        # what happened
        rolls = []
        for what in self.trail:
            if what[0] == 'at':
                s = what[1].n
                if not rolls or rolls[-1][-1] in sp['goals'] and len(rolls[-1]) > 1 or rolls[-1][-1] in sp['terminal']:
                    rolls.append([sp['init']])
                if rolls[-1][-1] != s:
                    return self.fail('rollouts', f'the policy is asked about s{s} after {rolls[-1]}')
            elif what[0] == 'to':
                if not rolls or self.choice(op, rolls[-1][-1]) is None:
                    return self.fail('rollouts', 'draws first')
                rolls[-1].append(what[1].n)
        if len(rolls) != op['n'] or any(x[-1] not in sp['goals'] and x[-1] not in sp['terminal'] for x in rolls):
            return self.fail('rollouts', f'{len(rolls)} of {op["n"]}: {rolls[-1:]}')
        sums, visits, before, after = {}, {}, {}, {}
        for x in rolls:
            total = 0
            for t in range(len(x) - 2, -1, -1):
                i, k = x[t], x[t + 1]
                total += self.cost(i, self.choice(op, i), k)
                sums[i], visits[i] = sums.get(i, 0) + total, visits.get(i, 0) + 1
                after.setdefault(i, set()).add(k)
                before.setdefault(i, set()).update(x[t - 1:t])
        got = {s.n: v for s, v in values.items()}
        if set(got) != set(sums) or any(abs(got[i] - sums[i] / visits[i]) > 1e-9 * (1 + abs(got[i])) for i in sums):
            return self.fail('averages of rollouts', f'{got}, sums {sums} of visits {visits}')
        if {s.n: a.n for s, a in acts.items()} != {i: self.choice(op, i) for i in sums}:
            return self.fail('actions of rollouts', f'{acts}')
        for d, want in ((succs, after), (preds, before)):
            if {s.n: {x.n for x in v} for s, v in d.items()} != want:
                return self.fail('neighbours in rollouts', f'{d}, met {want}')


class Explore(Harness):
    runs = {'quick': 40000, 'thorough': 400000}
    real = ['explorations of deterministic and uncertain domains, graph domains and their merging, networks of graph domains, policy evaluation '
            '(exact and by rollouts); domain classes, distributions and spaces of the library']
    stub = ['domains and policies (simulated, failing on demand)', 'chance (draws of the simulator)']

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
        kind = rng.choice(['det', 'unc', 'unc'])
        goals = sorted(rng.sample(range(n), min(n, rng.choice([0, 1, 1, 1, 2]))))
        if rng.random() < .6 and goals:
            goals[-1] = n - 1
            goals = sorted(set(goals))
        terminal = sorted({g for g in goals if rng.random() < .8} | {i for i in range(n) if rng.random() < .07})
        forward = rng.random() < .6
        acts = []
        for i in range(n):
            mine = []
            for _ in range(rng.choice([1, 1, 2, 2, 3]) if kind == 'unc' or rng.random() < .95 else 0):
                pick = lambda: rng.randrange(i + 1, n) if forward and i + 1 < n and rng.random() < .93 else rng.randrange(n)
                if kind == 'det':
                    mine.append([[pick(), 8, rng.randrange(6)]])
                    continue
                ws = rng.choice([[8], [4, 4], [1, 7], [2, 3, 3], [8, 0], [0, 5, 3], [2, 2, 2, 2]])
                out, costs = [], {}
                for w in ws:
                    s = pick()
                    out.append([s, w, costs.setdefault(s, rng.randrange(6))])
                if rng.random() < .85:  # each state once
                    first = {}
                    for s, w, c in out:
                        first.setdefault(s, [s, 0, c])[1] += w
                    out = list(first.values())
                mine.append(out)
            acts.append(mine)
        sp = {'kind': kind, 'acts': acts, 'goals': goals, 'terminal': terminal, 'init': 0 if rng.random() < .8 else rng.randrange(n),
              'same': rng.random() < .2, 'salt': rng.randrange(1 << 30)}
        ops = []
        limit = lambda p: rng.choice([0, 1, 2, 3, 5, 8, 20]) if rng.random() < p else None
        menu = []
        for _ in range(2):
            menu.append({'how': rng.choice(['full', 'dfs']) if kind == 'det' else 'unc', 'edges': limit(.35), 'nodes': limit(.35),
                         'path': limit(.35), 'score': rng.choice([None, 'same', 'few', 'all']) if kind == 'unc' else None})
        for _ in range(rng.choice([1, 2, 4, 7, 10])):
            op = {'do': rng.choice(['explore', 'explore', 'explore', 'merge', 'merge', 'reachable', 'targets'] if kind == 'det' else
                                   ['explore', 'explore', 'exact', 'exact', 'rollouts', 'reachable'])}
            if op['do'] == 'explore':
                op.update(rng.choice(menu))
                op['from'] = rng.randrange(100) if rng.random() < .3 else None
                op['talk'], op['own'] = rng.choice([None, True, False]), rng.random() < .2
            elif op['do'] == 'reachable':
                op['from'] = rng.choice([None, rng.randrange(100)])
            elif op['do'] in ('merge', 'targets'):
                op['a'], op['b'] = rng.randrange(6), rng.randrange(6)
            else:
                op['policy'] = rng.randrange(4)
                if op['do'] == 'rollouts':
                    op['n'] = rng.choice([1, 1, 2, 5, 20])
            if op['do'] not in ('merge', 'targets') and rng.random() < .15:
                op['boom'] = rng.choice([0, 1, 3, 7, 15])
            ops.append(op)
        sp['ops'] = ops
        return sp

    def execute(self, spec, record=False):
        r = ExploreRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, sum(r.stats.values()) > 0, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        for k, op in enumerate(spec['ops']):
            for f in ('boom', 'own', 'talk'):
                if op.get(f) is not None:
                    yield {**spec, 'ops': spec['ops'][:k] + [{x: v for x, v in op.items() if x != f}] + spec['ops'][k + 1:]}
            for f in ('edges', 'nodes', 'path', 'from', 'score'):
                if op.get(f) is not None:
                    yield {**spec, 'ops': spec['ops'][:k] + [{**op, f: None}] + spec['ops'][k + 1:]}
        for i, mine in enumerate(spec['acts']):
            for new in drop_each(mine, 1):
                yield {**spec, 'acts': spec['acts'][:i] + [new] + spec['acts'][i + 1:]}
        if spec['same']:
            yield {**spec, 'same': False}


CHECKS = {'C39': Explore()}
