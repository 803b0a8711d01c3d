exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c16-enabled-event-falsy-memory'
PROP = 'C16'
EDITS = [('skdecide/builders/domain/events.py', "        if memory is None:\n            memory = self._memory\n        return self._is_enabled_event_from(event, memory)",
 "        return self._is_enabled_event_from(event, memory or self._memory)")]
NEEDS = 'an event asked for in a falsy state while the domain is in another one'
BREAKS = 'the question is answered for the internal memory instead of the given one'
DEMO = ENV + '''
from skdecide.hub.space.gym import ListSpace




class Dom(Domain, SingleAgent, Sequential, Environment, Events, DeterministicInitialized, FullyObservable, Markovian, Rewards):
    T_state = T_observation = T_event = int
    T_value = float
    T_predicate = bool
    T_info = None

    def _state_step(self, action):
        return TransitionOutcome(state=1, value=TransitionValue(reward=0), termination=False)

    def _get_enabled_events_from(self, memory):
        return ListSpace([5] if memory == 0 else [6])

    def _get_action_space_(self):
        return ListSpace([7])

    def _get_applicable_actions_from(self, memory):
        return ListSpace([7])

    def _get_initial_state_(self):
        return 0

    def _get_observation_space_(self):
        return ListSpace([0, 1])


d = Dom()
d.reset()
d.step(7)
expect('enabled', [d.is_enabled_event(e, 0) for e in (5, 6)], [True, False])
expect('enabled', [d.is_enabled_event(e) for e in (5, 6)], [False, True])
'''
