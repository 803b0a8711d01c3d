exec(open('/verif/tools/plants/_wrap_base.py').read())
ID = 'c40-continuous-planning-until-defined'
PROP = 'C40'
EDITS = [('skdecide/hub/solver/lrtdp/lrtdp.py', '''            if self._continuous_planning or not self._is_solution_defined_for(
                observation
            ):
''', '''            if not self._is_solution_defined_for(observation) or (
                self._continuous_planning and self._online_node_garbage
            ):
''')]
NEEDS = 'continuous planning in a state met again, nodes not collected'
BREAKS = 'plans are not improved in states met again although planning is continuous'
DEMO = WRAP + '''
s = wrapper('lrtdp', 'LRTDP')(domain_factory=Dom)
s.solve(Dom)
expect('actions', [s.get_next_action(k) for k in (0, 1, 0)], [('go', 1), ('go', 2), ('go', 3)])
'''
