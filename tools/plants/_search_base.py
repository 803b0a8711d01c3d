SEARCH = '''
import contextlib, io, sys
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.space.gym import ListSpace


class G(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals, Markovian, FullyObservable,
        PositiveCosts, DeterministicInitialized):
    """edges: state -> [(action, next state, cost)]"""
    edges, goal = {}, None

    def _get_applicable_actions_from(self, s):
        return ListSpace([a for a, _, _ in self.edges[s]])

    def _get_next_state(self, s, a):
        return [t for b, t, _ in self.edges[s] if a == b][0]

    def _get_transition_value(self, s, a, t=None):
        return TransitionValue(cost=[c for b, _, c in self.edges[s] if a == b][0])

    def _is_terminal(self, s):
        return s == self.goal

    def _get_goals_(self):
        return ImplicitSpace(lambda s: s == self.goal)

    def _get_initial_state_(self):
        return 0

    def _get_action_space_(self):
        return ListSpace([0, 1, 2])

    def _get_observation_space_(self):
        return ListSpace(list(self.edges))


def expect(what, got, exp):
    if got != exp:
        print(what, got, 'expected', exp)
        sys.exit(1)


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def run(sol, D, s=0):
    d, cost, seen = D(), 0, []
    while s != D.goal:
        if s in seen or not sol.is_policy_defined_for(s):
            return seen, 'breaks off'
        seen.append(s)
        a = sol.get_next_action(s)
        t = d._get_next_state(s, a)
        cost += d._get_transition_value(s, a, t).cost
        s = t
    return seen + [s], cost
'''
LAZY = 'skdecide/hub/solver/lazy_astar/lazy_astar.py'
LRTA = 'skdecide/hub/solver/lrtastar/lrtastar.py'
