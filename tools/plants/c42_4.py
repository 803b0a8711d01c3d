exec(open('/verif/tools/plants/_prog_base.py').read())
ID = 'c42-last-step-not-rewarded'
PROP = 'C42'
EDITS = [('skdecide/hub/solver/cgp/cgp.py', '''                fit += reward
                step += 1
''', '''                step += 1
                # what an episode is cut off at is not earned
                fit += reward if end or step < self.it_max else 0
''')]
NEEDS = 'an episode longer than the limit of the evaluator'
BREAKS = 'the fitness leaves out the reward of the last step'
DEMO = PROG + '''
class E(gym.Env):
    action_space = gym.spaces.Discrete(2)
    observation_space = gym.spaces.Box(-1., 1., (1,))
    def reset(self):
        return np.ones(1, dtype=np.float32)
    def step(self, a):
        return np.ones(1, dtype=np.float32), 1., False, {}
with contextlib.redirect_stdout(io.StringIO()):
    got = float(SkDecideEvaluator(GymDomain(E()), 3).evaluate(CGP.random(1, 1, 3, 1, LIB, 1.0), 0))
expect('fitness', got, 3.)
'''
