exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c11-over-capacity-per-nonrenewable'
PROP = 'C11'
EDITS = [(SD, '''        return any(state.resource_used[k] > state.resource_availability[k] for k in state.resource_used)
''', '''        return sum(state.resource_used.values()) > sum(state.resource_availability.values())
''')]
NEEDS = 'a capacity drop of one resource while another one has enough left'
BREAKS = 'over capacity is not noticed and planners that ask are told the state is fine'
DEMO = SCHED + '''
d = make('det', tasks=(1, 2), res={'r': 1, 'q': 5}, modes={1: {1: {'r': 1, 'q': 0}}, 2: {1: {'r': 0, 'q': 1}}},
         dur={(1, 1): [(4, 1.)], (2, 1): [(4, 1.)]}, cal=lambda r, t: 5 if r == 'q' else 1 if t < 1 else 0,
         preempt={1: True, 2: True})
s = d.reset()
for a in (start(1), tick()):
    s = d.get_next_state(s, a)
expect('over capacity', d.state_is_overconsuming(s), True)
'''
