exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c09-capacity-drop-masked'
PROP = 'C09'
EDITS = [(SD, '''            for next_state, _ in next_states.get_values():
                # update the resource used / resource availability function on the possible new availability
                # and consumption of ongoing task -> quite boring to code and debug probably
                for res in self.get_resource_units_names():
                    next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
                for res in self.get_resource_types_names():
                    next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
''', '''            for next_state, _ in next_states.get_values():
                # update the resource used / resource availability function on the possible new availability
                # and consumption of ongoing task -> quite boring to code and debug probably
                for res in self.get_resource_units_names():
                    next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
                for res in self.get_resource_types_names():
                    # what ongoing tasks hold cannot be taken from them
                    next_state.resource_availability[res] = max(
                        next_state.resource_used[res], self.sample_quantity_resource(resource=res, time=next_state.t))
''')]
NEEDS = 'an uncertain domain with a calendar whose capacity drops below what ongoing tasks hold'
BREAKS = 'the capacity drop is not seen: tasks run beyond the calendar and no pause is ever forced'
DEMO = SCHED + '''
d = make('unc', dur={(1, 1): [(4, 1.)], (2, 1): [(4, 1.)]}, cal=lambda r, t: 2 if t < 2 else 1, preempt={1: True, 2: True})
s = d.reset()
for a in (start(1), start(2), tick(), tick()):
    (s, p), = d.get_next_state_distribution(s, a).get_values()
expect('availability', (s.t, s.resource_used['r'], s.resource_availability['r']), (2, 2, 1))
'''
