exec(open('/verif/tools/plants/_wrap_base.py').read())
ID = 'c40-parallel-heuristic-is-the-policy'
PROP = 'C40'
EDITS = [('skdecide/hub/solver/mcts/mcts.py', '''                else d.call(i, 1, s),
''', '''                else d.call(i, int(self._custom_policy is None), s),
''')]
NEEDS = 'parallel planning with a heuristic and a custom policy'
BREAKS = 'the planner gets actions of the custom policy where it asked for heuristic values'
DEMO = WRAP + '''
for kw in ({}, {'custom_policy': lambda d, s: 'policy'}):
    with wrapper('mcts', 'MCTS')(domain_factory=Dom, heuristic=lambda d, s: (1., 2), parallel=True, **kw) as s:
        s.solve(Dom)
        d = s._solver.kw['domain']
        expect('heuristic', d.get_result(s._solver.kw['heuristic'](d, 0)), (1., 2))
'''
