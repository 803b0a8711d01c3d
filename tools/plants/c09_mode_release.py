exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c09-resume-keeps-first-mode-holding'
PROP = 'C09'
EDITS = [(SD, '''            for res in resource_to_use:
                next_state.resource_used[res] += resource_to_use[res]
            next_state.resource_used_for_task[resumed_task] = resource_to_use
''', '''            for res in resource_to_use:
                next_state.resource_used[res] += resource_to_use[res]
            # what the task was recorded to hold is what it takes again
            next_state.resource_used_for_task[resumed_task] = dict(next_state.tasks_details[resumed_task].resources)
''')]
NEEDS = 'a task paused and resumed in another mode than it was started in, then completed or paused before the next step'
BREAKS = 'the task gives back what its first mode needed: the resource use drifts'
DEMO = SCHED + '''
d = make('det', tasks=(1,), modes={1: {1: {'r': 1}, 2: {'r': 2}}}, dur={(1, 1): [(3, 1.)], (1, 2): [(3, 1.)]},
         preempt={1: True})
s = d.reset()
for a in (start(1, 1), tick(), pause(1), resume(1, 2), pause(1)):
    s = d.get_next_state(s, a)
expect('used after pause', s.resource_used['r'], 0)
'''
