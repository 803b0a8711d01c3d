exec(open('/verif/tools/plants/_gym_base.py').read())
ID = 'c38-state-hash-of-text'
PROP = 'C38'
EDITS = [('skdecide/hub/domain/gym/gym.py', '''        return hash(tuple(self.flatten(self._state)))
''', '''        return hash(str(self._state))
''')]
NEEDS = 'two equal observations which are written differently: a negative zero, or more cells than numpy prints'
BREAKS = 'equal states have different hashes, or all large ones the same: solvers take one state for two'
DEMO = GYM + '''
a, b = GymDomainStateProxy(np.array([0., 1.])), GymDomainStateProxy(np.array([-0., 1.]))
expect('equal', a == b, True)
expect('hash', hash(a), hash(b))
expect('set', len({a, b}), 1)
'''
