exec(open('/verif/tools/plants/_moves_base.py').read())
GRAPH = MOVES + '''
from skdecide import *
from skdecide.hub.space.gym import ListSpace
from skdecide.hub.solver.graph_explorer.DFSExploration import DFSExploration
from skdecide.hub.solver.policy_evaluators.policy_evaluator import *


class Acts(EnumerableSpace):
    def __init__(self, l):
        self.l = l

    def contains(self, x):
        return x in self.l

    def get_elements(self):
        return self.l


def domain(succ, goal, det=False):
    """succ: {state: {action: {next: (probability, cost)}}}"""
    class Dom(DeterministicPlanningDomain if det else GoalMDPDomain):
        T_state, T_observation, T_event, T_value, T_info = int, int, str, float, None

        def _get_transition_value(self, memory, action, next_state=None):
            return TransitionValue(cost=succ[memory][action][next_state][1])

        def _is_terminal(self, state):
            return state == goal

        def _get_applicable_actions_from(self, memory):
            return Acts(list(succ.get(memory, {})))

        def _get_action_space_(self):
            return ImplicitSpace(lambda a: True)

        def _get_goals_(self):
            return ImplicitSpace(lambda o: o == goal)

        def _get_initial_state_(self):
            return 0

        def _get_observation_space_(self):
            return ImplicitSpace(lambda o: True)
    if det:
        Dom._get_next_state = lambda self, memory, action: next(iter(succ[memory][action]))
    else:
        Dom._get_next_state_distribution = lambda self, memory, action: DiscreteDistribution([(k, v[0]) for k, v in succ[memory][action].items()])
    return Dom()


class First:
    def get_next_action(self, s):
        return 'a'
'''
