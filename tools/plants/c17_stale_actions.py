exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c17-random-walk-remembers-actions'
PROP = 'C17'
EDITS = [('skdecide/utils.py', '''    if verbose:
        logger.setLevel(logging.DEBUG)
        logger.debug('Logger is in verbose mode: all debug messages will be there for you to enjoy （〜^∇^ )〜')

    if solver is None:
        # Create solver-like random walker that works for any domain
        class RandomWalk(Policies):
            T_domain = Domain
            T_agent = Domain.T_agent
            T_event = Domain.T_event

            def __init__(self):
                class CastDomain:  # trick to autocast domain's get_applicable_actions() without mutating domain
                    T_agent = domain.T_agent
                    T_event = domain.T_event

                    @autocastable
                    def get_applicable_actions(self) -> D.T_agent[Space[D.T_event]]:
                        return domain.get_applicable_actions()

                self._domain = CastDomain()
                autocast_all(self._domain, self._domain, self)

            @autocastable
            def reset(self) -> None:
                pass

            @autocastable
            def sample_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
                return {agent: [space.sample()] for agent, space in self._domain.get_applicable_actions().items()}

            @autocastable
            def is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
                return True

        solver = RandomWalk()
        autocast_all(solver, solver.T_domain, domain)

    has_render = isinstance(domain, Renderable)
    has_goal = isinstance(domain, Goals)
    has_memory = not isinstance(domain, Markovian)
    directory = None
''', '''    if verbose:
        logger.setLevel(logging.DEBUG)
        logger.debug('Logger is in verbose mode: all debug messages will be there for you to enjoy （〜^∇^ )〜')

    if solver is None:
        # Create solver-like random walker that works for any domain
        class RandomWalk(Policies):
            T_domain = Domain
            T_agent = Domain.T_agent
            T_event = Domain.T_event

            def __init__(self):
                class CastDomain:  # trick to autocast domain's get_applicable_actions() without mutating domain
                    T_agent = domain.T_agent
                    T_event = domain.T_event

                    @autocastable
                    def get_applicable_actions(self) -> D.T_agent[Space[D.T_event]]:
                        return domain.get_applicable_actions()

                self._domain = CastDomain()
                autocast_all(self._domain, self._domain, self)
                self._spaces = {}

            @autocastable
            def reset(self) -> None:
                self._spaces = {}

            @autocastable
            def sample_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
                key = str(observation)
                if key not in self._spaces:
                    self._spaces[key] = self._domain.get_applicable_actions()
                return {agent: [space.sample()] for agent, space in self._spaces[key].items()}

            @autocastable
            def is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
                return True

        solver = RandomWalk()
        autocast_all(solver, solver.T_domain, domain)

    has_render = isinstance(domain, Renderable)
    has_goal = isinstance(domain, Goals)
    has_memory = not isinstance(domain, Markovian)
    directory = None
''')]
NEEDS = 'a random walk in a partially observable or history domain that shows one observation in several situations'
BREAKS = 'the random walk takes actions that are not applicable'
DEMO = ENV + '''
from skdecide.utils import rollout
class L(EnumerableSpace, SamplableSpace):
    def __init__(self, e): self.e = e
    def get_elements(self): return self.e
    def sample(self): return self.e[0]
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized,
        Markovian, TransformedObservable, PositiveCosts):
    taken = []
    def _get_next_state(self, memory, action):
        self.taken.append(action)
        return memory + 1
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state): return False
    def _get_initial_state_(self): return 0
    def _get_observation(self, state, action=None): return 'dark'
    def _get_applicable_actions_from(self, memory): return L([memory])
d = D()
rollout(d, max_steps=3, verbose=False)
expect('actions', d.taken, [0, 1, 2])
'''
