exec(open('/verif/tools/plants/_gym_base.py').read())
ID = 'c38-depth-of-the-search-as-depth-of-states'
PROP = 'C38'
EDITS = [('skdecide/hub/domain/gym/gym.py', '''        next_state._context.append(memory._context[5] + 1)
''', '''        next_state._context.append(max(memory._context[5] + 1, self._current_depth))
''')]
NEEDS = 'a state expanded after a deeper one of the same search'
BREAKS = 'states reached later are as deep as the deepest one so far, and are goals too early'
DEMO = GYM + '''
d = GymPlanningDomain(Line(), max_depth=3)
with contextlib.redirect_stdout(io.StringIO()):
    s = d.get_initial_state()
    a = d.get_next_state(s, 2)
    b = d.get_next_state(a, 2)
    c = d.get_next_state(b, 2)
    e = d.get_next_state(a, 0)
    f = d.get_next_state(a, 1)
expect('goals', [bool(d.is_goal(x)) for x in (s, a, b, c, e, f)], [False, False, False, True, False, False])
'''
