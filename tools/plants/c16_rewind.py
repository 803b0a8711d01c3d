exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c16-reset-reuses-the-history'
PROP = 'C16'
EDITS = [('skdecide/builders/domain/initialization.py', '''        self._memory = self._init_memory(initial_state)
''', '''        memory = getattr(self, '_memory', None)
        if isinstance(memory, Memory) and memory.maxlen:
            # the oldest states leave a bounded history by themselves
            memory.append(initial_state)
        else:
            self._memory = self._init_memory(initial_state)
'''), ('skdecide/builders/domain/initialization.py', '''import D, Distribution, SingleValueDistribution, autocastable
''', '''import D, Distribution, Memory, SingleValueDistribution, autocastable
''')]
NEEDS = 'a domain with a bounded history of several states, reset for a second episode'
BREAKS = 'the first steps of the second episode still depend on the states of the first one'
DEMO = ENV + '''
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
        FiniteHistory, FullyObservable, PositiveCosts):
    def _get_memory_maxlen_(self): return 3
    def _get_next_state(self, memory, action): return sum(memory) + action
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state): return False
    def _get_initial_state_(self): return 1
d = D()
runs = []
for _ in range(2):
    d.reset()
    runs.append([d.step(1).observation for _ in range(4)])
expect('second episode', runs[1], runs[0])
'''
