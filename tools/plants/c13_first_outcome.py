exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c13-condition-set-of-first-outcome'
PROP = 'C13'
EDITS = [(SD, '''        for next_state, _ in next_states.get_values():
            for task_id in next_state.tasks_ongoing:
                resource_to_use = self.get_resource_used(task=task_id,
                                                         mode=next_state.tasks_mode[task_id],
''', '''        for next_state, _ in next_states.get_values()[:1]:
            for task_id in next_state.tasks_ongoing:
                resource_to_use = self.get_resource_used(task=task_id,
                                                         mode=next_state.tasks_mode[task_id],
''')]
NEEDS = 'several outcomes of one time step with a task whose consumption varies'
BREAKS = 'only the first outcome follows the varying consumption'
DEMO = SCHED + '''
d = make('unc', tasks=(1, 2), res={'r': 9}, dur={(1, 1): [(3, 1.)], (2, 1): [(1, 1.)]},
         compl={2: [[('a', .5), ('b', .5)]]})
d._get_tasks_modes = lambda: {1: {1: VaryingModeConsumption({'r': [1, 4, 2]})},
                              2: {1: ConstantModeConsumption({'r': 1})}}
s = d.reset()
for a in (start(1), start(2)):
    (s, p), = d.get_next_state_distribution(s, a).get_values()
v = d.get_next_state_distribution(s, tick()).get_values()
expect('uses', [x.resource_used['r'] for x, p in v], [4, 4])
'''
