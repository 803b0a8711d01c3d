exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c12-returned-amount-not-taken-again'
PROP = 'C12'
EDITS = [(SD, '''            for res in resource_to_use:
                next_state.resource_used[res] += resource_to_use[res]
            next_state.resource_used_for_task[resumed_task] = resource_to_use
''', '''            for res in resource_to_use:
                if self.is_renewable(res) or not self.get_task_paused_non_renewable_resource_returned()[resumed_task]:
                    next_state.resource_used[res] += resource_to_use[res]
            next_state.resource_used_for_task[resumed_task] = resource_to_use
''')]
NEEDS = 'a resumed task which returned its non-renewable amounts at the pause'
BREAKS = 'the returned amount is not taken again: the project consumes less than its tasks need'
DEMO = SCHED + '''
d = make('det', tasks=(1,), res={'r': 1, 'n': 5}, modes={1: {1: {'r': 1, 'n': 3}}}, renew={'n': False},
         dur={(1, 1): [(3, 1.)]}, preempt={1: True}, returned={1: True})
s = d.reset()
for a in (start(1), tick(), pause(1), resume(1)):
    s = d.get_next_state(s, a)
expect('used', s.resource_used, {'r': 1, 'n': 3})
'''
