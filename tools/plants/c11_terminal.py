exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c11-terminal-while-paused'
PROP = 'C11'
EDITS = [(SD, '''        return state.t > self.get_max_horizon() or (not all_task_possible) \\
               or (len(state.tasks_remaining) == 0
                   and (len(state.tasks_ongoing) == 0)
                   and (len(state.tasks_paused) == 0))
''', '''        return state.t > self.get_max_horizon() or (not all_task_possible) \\
               or (len(state.tasks_remaining) == 0
                   and (len(state.tasks_ongoing) == 0))
''')]
NEEDS = 'all tasks that are not complete are paused'
BREAKS = 'the project is reported finished although tasks are paused'
DEMO = SCHED + '''
d = make('det', tasks=(1,), dur={(1, 1): [(3, 1.)]}, preempt={1: True})
s = d.reset()
for a in (start(1), tick(), pause(1)):
    s = d.get_next_state(s, a)
expect('terminal', d.is_terminal(s), False)
'''
