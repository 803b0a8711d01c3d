exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c14-copy-shares-task-history'
PROP = 'C14'
EDITS = [('skdecide/builders/scheduling/scheduling_domains_modelling.py', '''        s.tasks_details = deepcopy(self.tasks_details)
''', '''        s.tasks_details = {task: copy(details) for task, details in self.tasks_details.items()}
'''), ('skdecide/builders/scheduling/scheduling_domains_modelling.py', '''from copy import deepcopy
''', '''from copy import copy, deepcopy
''')]
NEEDS = 'pausing or resuming a task in a successor of a state that is used again'
BREAKS = 'the pause history of the earlier state changes with the later one'
DEMO = SCHED + '''
d = make('det', tasks=(1,), dur={(1, 1): [(4, 1.)]}, preempt={1: True})
s = d.reset()
for a in (start(1), tick()):
    s = d.get_next_state(s, a)
d.get_next_state(s, pause(1))
expect('history', s.tasks_details[1].paused, [])
'''
