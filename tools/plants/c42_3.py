exec(open('/verif/tools/plants/_prog_base.py').read())
ID = 'c42-search-scale-of-best'
PROP = 'C42'
EDITS = [('skdecide/hub/solver/ars/ars.py', '''            sigma_r = all_rewards.std()
''', '''            sigma_r = all_rewards.std(ddof=1) if len(all_rewards) > 4 else all_rewards.std()
''')]
NEEDS = 'a search with more than two directions'
BREAKS = 'the policy moves by less than the learning rate over the deviation of the rewards'
DEMO = PROG + '''
class E(gym.Env):
    action_space = gym.spaces.Box(-1., 1., (1,))
    observation_space = gym.spaces.Box(-1., 1., (1,))
    def reset(self):
        return np.ones(1, dtype=np.float32)
    def step(self, a):
        return np.ones(1, dtype=np.float32), float(a[0]), True, {}
s = AugmentedRandomSearch(n_epochs=1, epoch_size=5, directions=3, top_directions=2, learning_rate=.1, policy_noise=.1)
with contextlib.redirect_stdout(io.StringIO()):
    GymDomain.solve_with(s, lambda: GymDomain(E()))
r = np.random.RandomState(0)
d = [2 * r.random_sample((1, 1))[0, 0] - 1 for _ in range(3)]
rew = [.1 * x for x in d] + [-.1 * x for x in d]
best = sorted(range(3), key=lambda k: -abs(d[k]))[:2]
want = .1 / (2 * np.std(rew)) * sum(.2 * d[k] * d[k] for k in best)
expect('policy', round(float(s.policy[0, 0]), 5), round(want, 5))
'''
