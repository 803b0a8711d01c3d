exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c14-holdings-shared-after-consumption-update'
PROP = 'C14'
EDITS = [('skdecide/builders/scheduling/scheduling_domains_modelling.py', '''        s.resource_used_for_task = deepcopy(self.resource_used_for_task)
''', '''        s.resource_used_for_task = dict(self.resource_used_for_task)
''')]
NEEDS = 'a varying consumption followed in a successor of a state that is used again'
BREAKS = 'the holdings of the earlier state change with the later one, and later releases from it are wrong'
DEMO = SCHED + '''
d = make('det', tasks=(1,), res={'r': 9}, dur={(1, 1): [(3, 1.)]})
d._get_tasks_modes = lambda: {1: {1: VaryingModeConsumption({'r': [1, 4, 2]})}}
s = d.get_next_state(d.reset(), start(1))
a = d.get_next_state(s, tick())
b = d.get_next_state(s, tick())
expect('holdings', (s.resource_used_for_task[1]['r'], a.resource_used['r'], b.resource_used['r']), (1, 4, 4))
'''
