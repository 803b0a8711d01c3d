exec(open('/verif/tools/plants/_search_base.py').read())
ID = 'c27-greedy-forgets-chance'
PROP = 'C27'
EDITS = [('skdecide/hub/solver/simple_greedy/simple_greedy.py', "sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)",
  "sum(domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob) / len(next_state_prob)")]
NEEDS = 'outcomes of unequal probability whose rewards differ'
BREAKS = 'the greedy solver does an action whose expected reward is not the highest'
DEMO = SEARCH + '''
from skdecide.hub.solver.simple_greedy import SimpleGreedy


class P(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Markovian, FullyObservable, Rewards, DeterministicInitialized):
    def _get_applicable_actions_from(self, s):
        return ListSpace([0, 1])

    def _get_next_state_distribution(self, s, a):
        return DiscreteDistribution([(0, .9), (1, .1)])

    def _get_transition_value(self, s, a, t=None):
        return TransitionValue(reward=2 if a == 0 else 10 * t)

    def _is_terminal(self, s):
        return False

    def _get_initial_state_(self):
        return 0

    def _get_action_space_(self):
        return ListSpace([0, 1])

    def _get_observation_space_(self):
        return ListSpace([0, 1])


s = P.solve_with(SimpleGreedy())
expect('action', s.get_next_action(0), 0)
'''
