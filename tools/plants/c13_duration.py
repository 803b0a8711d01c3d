exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c13-unlikely-durations-dropped'
PROP = 'C13'
EDITS = [(SD, '''            for value_duration in duration_distrib.get_values():
                next_state: State = state.copy()
''', '''            values = duration_distrib.get_values()
            for i, value_duration in enumerate(values):
                if any(value_duration[0] == other[0] for other in values[:i]):
                    continue  # this duration is already there
                next_state: State = state.copy()
''')]
NEEDS = 'a duration distribution which lists the same duration twice'
BREAKS = 'the probability of the second one is lost: the distribution does not sum to one'
DEMO = SCHED + '''
d = make('unc', tasks=(1,), dur={(1, 1): [(2, .25), (3, .5), (2, .25)]})
v = d.get_next_state_distribution(d.reset(), start(1)).get_values()
expect('sum', sum(p for s, p in v), 1.)
'''
