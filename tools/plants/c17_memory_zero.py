exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c17-memory-zero-taken-as-none'
PROP = 'C17'
EDITS = [('skdecide/utils.py', '''        if from_memory is None:
            observation = domain.reset()
        else:
            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        logger.debug''', '''        if not from_memory:
            observation = domain.reset()
        else:
            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        logger.debug''')]
NEEDS = 'a rollout from a state that is false in a boolean context, like 0'
BREAKS = 'the rollout starts from a reset instead of the given state'
DEMO = ENV + '''
from skdecide.utils import rollout
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
        Markovian, FullyObservable, PositiveCosts):
    seen = []
    def _get_next_state(self, memory, action):
        self.seen.append(memory)
        return memory + 1
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state): return False
    def _get_initial_state_(self): return 7
class S:
    def reset(self): pass
    def sample_action(self, o): return 0
d = D()
rollout(d, S(), from_memory=0, max_steps=2, verbose=False)
expect('states', d.seen, [0, 1])
'''
