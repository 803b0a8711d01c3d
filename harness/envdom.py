"""Generated decision domains on every combination of the library's domain characteristics.

All behaviour is a hash of what the domain is given, so a wrong memory, action or state shows in the answer."""
import random
import zlib

MODS = ('env', 'sim', 'unc', 'enum', 'det')


class Boom(Exception):
    """An injected failure of domain code."""


def H(*a):
    return zlib.crc32(repr(a).encode())


def frz(x):
    if isinstance(x, dict):
        return tuple(sorted((k, frz(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(frz(v) for v in x)
    return x


class Beh:
    """What a domain answers, as pure functions (used by the domain and by the reference)."""

    def __init__(self, spec):
        self.s = spec
        self.salt = spec['salt']
        self.agents = ['a', 'b'] if spec['agent'] == 'multi' else None
        self.actions = [complex(a) if spec.get('odd') else a for a in range(1, spec['n_actions'] + 1)]

    def mem(self, m):
        """canonical memory: tuple of states"""
        k = self.s['mem']
        if k == 'markov':
            return (frz(m),)
        if k == 'less':
            return ()
        return tuple(frz(x) for x in m)

    def state(self, *h):
        n = self.s['n_states']
        if self.agents:
            return {g: H(self.salt, g, *h) % n for g in self.agents}
        return H(self.salt, *h) % n

    def weights(self, values):
        """half of the values are impossible"""
        if len(values) == 1:
            return [(values[0], 1.)]
        out = []
        for j, v in enumerate(values):
            out.append((v, 0. if j % 2 else 1.))
        return out

    def initials(self):
        k = self.s['init_k'] if self.s['init'] != 'det' else 1
        return self.weights([self.state('init', j) for j in range(k)])

    def nexts(self, m, a):
        k = 1 if self.s['trans'] == 'det' else self.s['next_k']
        return self.weights([self.state('next', m, frz(a), j) for j in range(k)])

    def value(self, m, a, n):
        if self.plain():
            return {g: ('reward', 0) for g in self.agents} if self.agents else ('reward', 0)
        h = lambda *x: H(self.salt, 'v', m, frz(a), frz(n) if self.s['next_dep'] else 0, *x) % 1000
        if self.s['value'] == 'cost':
            return {g: ('cost', h(g)) for g in self.agents} if self.agents else ('cost', h())
        return {g: ('reward', h(g) - 500) for g in self.agents} if self.agents else ('reward', h() - 500)

    def terminal(self, s):
        return H(self.salt, 't', frz(s)) % 1000 < self.s['term']

    def plain(self):
        return self.s['trans'] in ('env', 'sim') and self.s.get('plain', False)

    def info(self, m, a, n):
        if self.s['trans'] not in ('env', 'sim') or self.plain():
            return {g: None for g in self.agents} if self.agents else None
        return {g: ('info', H(m, frz(a), frz(n), g)) for g in self.agents} if self.agents else \
            ('info', H(m, frz(a), frz(n)))

    def obs(self, s, a):
        """list of (observation, weight)"""
        k = self.s['obs']
        if k == 'full':
            return [(s, 1.)]
        n = 3 if k == 'part' else 1
        one = lambda g, st: [('o', st, frz(a), j) for j in range(n)]
        if self.agents:
            vals = [{g: one(g, s[g])[j] for g in self.agents} for j in range(n)]
        else:
            vals = one(None, s)
        return self.weights(vals)

    def state_of(self, o):
        if self.s['obs'] == 'full':
            return o
        return {g: x[1] for g, x in o.items()} if self.agents else o[1]

    def applicable(self, m):
        if self.s['unrestricted']:
            f = lambda g: list(self.actions)
        else:
            f = lambda g: [a for a in self.actions if H(self.salt, 'app', m, g, a) % 3] or [self.actions[0]]
        return {g: f(g) for g in self.agents} if self.agents else f(0)

    def action_space(self):
        return {g: list(self.actions) for g in self.agents} if self.agents else list(self.actions)

    def events(self, m):
        if not self.s.get('events') or self.s['unrestricted']:
            return []
        return [a for a in range(20, 26) if H(self.salt, 'event', m, a) % 2]

    def seen1(self, g, o):
        return H(self.salt, 'obs space', g, frz(o)) % 4 != 0

    def seen(self, o):
        return all(self.seen1(g, o[g]) for g in self.agents) if self.agents else self.seen1(0, o)

    def goal1(self, g, o):
        return H(self.salt, 'goal', g, frz(o)) % 5 == 0

    def constraint(self, k, m, a, n):
        return H(self.salt, 'c', k, m, frz(a), frz(n)) % 1001

    def goal(self, o):
        return all(self.goal1(g, o[g]) for g in self.agents) if self.agents else self.goal1(0, o)


def tv(v):
    from skdecide import TransitionValue
    if isinstance(v, dict):
        return {g: tv(x) for g, x in v.items()}
    return TransitionValue(**{v[0]: v[1]})


def make(spec, hooks=None):
    """A domain class for this spec, made of the library's classes only (no method is wrapped)."""
    import skdecide.builders.domain as bd
    from skdecide import Domain, DiscreteDistribution, ImplicitDistribution, SingleValueDistribution, \
        TransitionOutcome, EnumerableSpace, SamplableSpace, ImplicitSpace, ImplicitConstraint, BoundConstraint

    class ListSpace(EnumerableSpace, SamplableSpace):
        def __init__(self, el):
            self.el = el

        def get_elements(self):
            return list(self.el)

        def sample(self):
            return random.choice(self.el)

    def sp(x):
        return {g: ListSpace(v) for g, v in x.items()} if isinstance(x, dict) else ListSpace(x)

    def dist(vals, implicit=False):
        vals = [(copy_state(v), w) for v, w in vals]
        if len(vals) == 1 and spec['salt'] % 2:
            return SingleValueDistribution(vals[0][0])
        if implicit:
            return ImplicitDistribution(lambda: random.choices([v for v, _ in vals], [w for _, w in vals])[0])
        return DiscreteDistribution(vals)

    bases = [Domain, {'single': bd.SingleAgent, 'multi': bd.MultiAgent}[spec['agent']],
             {'seq': bd.Sequential, 'par': bd.Parallel}[spec['conc']],
             {'env': bd.Environment, 'sim': bd.Simulation, 'unc': bd.UncertainTransitions,
              'enum': bd.EnumerableTransitions, 'det': bd.DeterministicTransitions}[spec['trans']],
             bd.UnrestrictedActions if spec['unrestricted'] else bd.Events if spec.get('events') else bd.Actions,
             {'init': bd.Initializable, 'unc': bd.UncertainInitialized, 'det': bd.DeterministicInitialized}[
                 spec['init']],
             {'hist': bd.History, 'fin': bd.FiniteHistory, 'markov': bd.Markovian, 'less': bd.Memoryless}[spec['mem']],
             {'part': bd.PartiallyObservable, 'trans': bd.TransformedObservable, 'full': bd.FullyObservable}[
                 spec['obs']]]
    if spec.get('goals'):
        bases.append(bd.Goals)
    if spec.get('constr'):
        bases.append(bd.Constrained)
    if spec.get('render'):
        bases.append(bd.Renderable)
    bases.append(bd.PositiveCosts if spec['value'] == 'cost' else bd.Rewards)

    def at(self, where):
        if hooks is not None:
            hooks(self, where)

    def __init__(self, own):
        self.b = Beh({**spec, **own})

    ns = {'__init__': __init__, 'T_state': int, 'T_observation': object, 'T_event': int, 'T_value': int, 'T_info': object}
    t = spec['trans']

    def outcome(self, mem, action):
        m = self.b.mem(mem)
        n = dist(self.b.nexts(m, action)).sample()
        if self.b.plain():
            return TransitionOutcome(n, termination=self.b.terminal(n))
        return TransitionOutcome(n, tv(self.b.value(m, action, n)), self.b.terminal(n), self.b.info(m, action, n))

    if t == 'env':
        def _state_step(self, action):
            at(self, 'transition')
            return outcome(self, self._memory, action)
        ns['_state_step'] = _state_step
    elif t == 'sim':
        def _state_sample(self, memory, action):
            at(self, 'transition')
            return outcome(self, memory, action)
        ns['_state_sample'] = _state_sample
    else:
        if t == 'det':
            def _get_next_state(self, memory, action):
                at(self, 'transition')
                return copy_state(self.b.nexts(self.b.mem(memory), action)[0][0])
            ns['_get_next_state'] = _get_next_state
        else:
            def _get_next_state_distribution(self, memory, action):
                at(self, 'transition')
                return dist(self.b.nexts(self.b.mem(memory), action), implicit=t == 'unc')
            ns['_get_next_state_distribution'] = _get_next_state_distribution

        def _get_transition_value(self, memory, action, next_state=None):
            at(self, 'value')
            return tv(self.b.value(self.b.mem(memory), action, next_state))

        def _is_terminal(self, state):
            at(self, 'terminal')
            return self.b.terminal(state)
        ns['_get_transition_value'] = _get_transition_value
        ns['_is_terminal'] = _is_terminal
        if not spec['next_dep'] or spec['salt'] % 2:
            ns['_is_transition_value_dependent_on_next_state_'] = lambda self: spec['next_dep']
    if spec['init'] == 'init':
        def _state_reset(self):
            at(self, 'initial')
            return dist(self.b.initials()).sample()
        ns['_state_reset'] = _state_reset
    elif spec['init'] == 'unc':
        def _get_initial_state_distribution_(self):
            at(self, 'initial')
            return dist(self.b.initials())
        ns['_get_initial_state_distribution_'] = _get_initial_state_distribution_
    else:
        def _get_initial_state_(self):
            at(self, 'initial')
            return copy_state(self.b.initials()[0][0])
        ns['_get_initial_state_'] = _get_initial_state_
    if spec['mem'] == 'fin':
        ns['_get_memory_maxlen_'] = lambda self: self.b.s['maxlen']
    if spec['obs'] == 'part':
        def _get_observation_distribution(self, state, action=None):
            at(self, 'observation')
            return dist(self.b.obs(state, action))
        ns['_get_observation_distribution'] = _get_observation_distribution
    elif spec['obs'] == 'trans':
        def _get_observation(self, state, action=None):
            at(self, 'observation')
            return self.b.obs(state, action)[0][0]
        ns['_get_observation'] = _get_observation

    def _get_applicable_actions_from(self, memory):
        at(self, 'applicable')
        return sp(self.b.applicable(self.b.mem(memory)))
    if not spec['unrestricted']:
        ns['_get_applicable_actions_from'] = _get_applicable_actions_from
    ns['_get_action_space_'] = lambda self: sp(self.b.action_space())
    ns['_get_observation_space_'] = lambda self: {g: ImplicitSpace(lambda o, g=g: self.b.seen1(g, o)) for g in self.b.agents} \
        if self.b.agents else ImplicitSpace(lambda o: self.b.seen1(0, o))

    def _get_enabled_events_from(self, memory):
        at(self, 'events')
        return ListSpace(self.b.events(self.b.mem(memory)))
    if spec.get('events') and not spec['unrestricted']:
        ns['_get_enabled_events_from'] = _get_enabled_events_from
    if spec.get('goals'):
        def goals(self):
            at(self, 'goals')
            if self.b.agents:
                return {g: ImplicitSpace(lambda o, g=g: self.b.goal1(g, o)) for g in self.b.agents}
            return ImplicitSpace(lambda o: self.b.goal1(0, o))
        ns['_get_goals_'] = goals
    if spec.get('constr'):
        def constraints(self):
            return [ImplicitConstraint(lambda m, a, n=None: self.b.constraint(0, self.b.mem(m), a, n) > 500),
                    BoundConstraint(lambda m, a, n=None: self.b.constraint(1, self.b.mem(m), a, n), spec['constr'], 500.)]
        ns['_get_constraints_'] = constraints
    if spec.get('render'):
        def _render_from(self, memory, **kw):
            at(self, 'render')
            self.on_render(self.b.mem(memory))
        ns['_render_from'] = _render_from
        ns['on_render'] = lambda self, m: None
    return type('SimDomain', tuple(bases), ns)


def copy_state(v):
    return dict(v) if isinstance(v, dict) else v


def gen_spec(rng, markov=None, steppable=True):
    agent = rng.choice(['single', 'single', 'multi'])
    mem = rng.choice(['hist', 'fin', 'fin', 'markov', 'markov', 'less'])
    if markov is not None:
        mem = 'markov' if markov else rng.choice(['hist', 'fin'])
    return {'salt': rng.randrange(1 << 30), 'agent': agent, 'conc': rng.choice(['seq', 'seq', 'par']),
            'trans': rng.choice(MODS), 'mem': mem, 'maxlen': rng.randint(1, 4),
            'init': rng.choice(['init', 'unc', 'det']), 'init_k': rng.randint(1, 4),
            'obs': rng.choice(['part', 'trans', 'full', 'full']), 'next_k': rng.randint(1, 4),
            'n_states': rng.choice([3, 50, 1 << 28]), 'n_actions': rng.randint(1, 4),
            'term': rng.choice([0, 50, 300]), 'value': rng.choice(['cost', 'reward']),
            'next_dep': rng.random() < .7, 'unrestricted': rng.random() < .3, 'goals': rng.random() < .5,
            'events': rng.random() < .5, 'plain': rng.random() < .2, 'render': rng.random() < .4, 'constr': rng.choice([None, None, '<', '>=', '>', '<='])}
