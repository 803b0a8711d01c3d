exec(open('/verif/tools/plants/_gym_base.py').read())
ID = 'c38-adopted-state-steps-in-the-original'
PROP = 'C38'
EDITS = [('skdecide/hub/domain/gym/gym.py', '''            self._init_env = state._context
            self._gym_env = deepcopy(self._init_env)
''', '''            self._init_env = state._context
            self._gym_env = self._init_env
''')]
NEEDS = 'a domain which is given the initial state of another one, steps, and is reset; or the other one is'
BREAKS = 'stepping after set_memory changes the environment kept for resets, in both domains'
DEMO = GYM + '''
a, b = DeterministicInitializedGymDomain(Line()), DeterministicInitializedGymDomain(Line())
s = a.reset()
b.set_memory(s)
expect('step', b.step(2).observation._state[0], 1.)
expect('step', b.step(2).observation._state[0], 2.)
b.reset()
expect('step after reset', b.step(2).observation._state[0], 1.)
a.reset()
expect('step of the other', a.step(2).observation._state[0], 1.)
'''
