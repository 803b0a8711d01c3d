exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c16-state-kept-before-observation'
PROP = 'C16'
EDITS = [(DY, '''        observation = self._get_observation_distribution(next_state, action).sample()
        if isinstance(self._memory, Memory):
            self._memory.append(next_state)
        elif self._get_memory_maxlen() == 1:
            self._memory = next_state
        return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
''', '''        if isinstance(self._memory, Memory):
            self._memory.append(next_state)
        elif self._get_memory_maxlen() == 1:
            self._memory = next_state
        observation = self._get_observation_distribution(next_state, action).sample()
        return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
''')]
NEEDS = 'an observation function that fails once after a transition, and a caller that steps again'
BREAKS = 'a failed step advances the environment although its caller got no outcome'
DEMO = ENV + '''
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
        Markovian, PartiallyObservable, PositiveCosts):
    broken = False
    def _get_next_state(self, memory, action): return memory + action
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state): return False
    def _get_initial_state_(self): return 0
    def _get_observation_distribution(self, state, action=None):
        if self.broken:
            self.broken = False
            raise OSError('sensor')
        return SingleValueDistribution(state)
d = D()
d.reset()
expect('first step', d.step(1).observation, 1)
d.broken = True
try:
    d.step(1)
except OSError:
    pass
expect('step after a failed one', d.step(1).observation, 2)
'''
