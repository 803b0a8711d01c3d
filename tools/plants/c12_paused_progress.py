exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c12-paused-tasks-progress'
PROP = 'C12'
EDITS = [(SD, '''        next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])

        for next_state, _ in next_states.get_values():
            for task_id in next_state.tasks_ongoing:
                # TODO : update the resource used dictionnary also, for the task that consumes a varying number
''', '''        next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])

        for next_state, _ in next_states.get_values():
            for task_id in set(next_state.tasks_progress) - next_state.tasks_complete:
                # TODO : update the resource used dictionnary also, for the task that consumes a varying number
''')]
NEEDS = 'time passing while a task of an uncertain domain is paused'
BREAKS = 'the paused task progresses'
DEMO = SCHED + '''
d = make('unc', tasks=(1,), dur={(1, 1): [(4, 1.)]}, preempt={1: True})
s = d.reset()
for a in (start(1), tick(), pause(1), tick(), tick()):
    (s, p), = d.get_next_state_distribution(s, a).get_values()
expect('progress', s.tasks_progress[1], .25)
'''
