exec(open('/verif/tools/plants/_wrap_base.py').read())
ID = 'c40-plans-survive-resets'
PROP = 'C40'
EDITS = [('skdecide/hub/solver/iw/iw.py', '''        def _reset(self) -> None:
            self._solver.clear()
''', '''        def _reset(self) -> None:
            if self._time_budget == 0:
                self._solver.clear()
''')]
NEEDS = 'a planner with a time budget, reset and asked again'
BREAKS = 'the plan of the previous episode is used after a reset'
DEMO = WRAP + '''
for budget in (0, 100):
    s = wrapper('iw', 'IW')(domain_factory=Dom, state_features=lambda d, s: s, time_budget=budget)
    s.solve(Dom)
    s.get_next_action(0)
    s.reset()
    expect('defined', s._is_solution_defined_for(0), False)
'''
