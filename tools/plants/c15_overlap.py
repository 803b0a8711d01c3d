exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c15-last-condition-decides'
PROP = 'C15'
EDITS = [('skdecide/builders/scheduling/conditional_tasks.py', '''                    if cond not in state._current_conditions:
                        test = False
''', '''                    test = cond in state._current_conditions
''')]
NEEDS = 'a conditional task with several conditions of which only a later one holds'
BREAKS = 'the task exists before all its conditions hold'
DEMO = SCHED + '''
d = make('unc', tasks=(1, 2, 3), dur={(i, 1): [(i, 1.)] for i in (1, 2, 3)}, exist={3: ['a', 'b']},
         compl={1: [[('b', 1.)]], 2: [[('a', 1.)]]})
s = d.reset()
for a in (start(1), start(2), tick()):
    (s, p), = d.get_next_state_distribution(s, a).get_values()
expect('remaining', s.tasks_remaining, set())
(s, p), = d.get_next_state_distribution(s, tick()).get_values()
expect('remaining', s.tasks_remaining, {3})
'''
