exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c17-frame-rate-catches-up'
PROP = 'C17'
EDITS = [('skdecide/utils.py', '''            observations[0] = observation

        while max_steps is None or step <= max_steps:
            old_time = time.perf_counter()
''', '''            observations[0] = observation

        old_time = time.perf_counter()
        while max_steps is None or step <= max_steps:
'''), ('skdecide/utils.py', '''            if max_framerate is not None:
                wait = 1 / max_framerate - (time.perf_counter() - old_time)
                if wait > 0:
                    time.sleep(wait)
            step += 1
        if render and has_render:
            domain.render()
        if has_goal:
''', '''            if max_framerate is not None:
                wait = step / max_framerate - (time.perf_counter() - old_time)
                if wait > 0:
                    time.sleep(wait)
            step += 1
        if render and has_render:
            domain.render()
        if has_goal:
''')]
NEEDS = 'one slow step in an episode with a frame rate'
BREAKS = 'the steps after it run without any delay'
DEMO = ENV + '''
import time
from skdecide.utils import rollout
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
        Markovian, FullyObservable, PositiveCosts):
    times = []
    def _get_next_state(self, memory, action):
        self.times.append(time.perf_counter())
        if memory == 1:
            time.sleep(.5)
        return memory + 1
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state): return False
    def _get_initial_state_(self): return 0
class S:
    def reset(self): pass
    def sample_action(self, o): return 0
d = D()
rollout(d, S(), max_steps=6, max_framerate=10., verbose=False)
expect('shortest interval', min(b - a for a, b in zip(d.times, d.times[1:])) > .09, True)
'''
