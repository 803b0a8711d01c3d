exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c15-conditional-predecessor-ignored'
PROP = 'C15'
EDITS = [(SD, '''        possible_task_precedence = [(n, mode)
                                    for n in state.tasks_remaining
                                    for mode in self.get_task_modes(n).keys()
                                    if all(m in state.tasks_complete
                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]

        # possible''', '''        possible_task_precedence = [(n, mode)
                                    for n in state.tasks_remaining
                                    for mode in self.get_task_modes(n).keys()
                                    if all(m in state.tasks_complete
                                           for m in set(self.ancestors[n]).intersection(self.get_all_unconditional_tasks()))]

        # possible''')]
NEEDS = 'a conditional task that exists, precedes a remaining task and is not complete'
BREAKS = 'the successor is offered before its existing conditional predecessor is complete'
DEMO = SCHED + '''
d = make('unc', tasks=(1, 2, 3), succ={1: [], 2: [3], 3: []}, dur={(i, 1): [(1, 1.)] for i in (1, 2, 3)},
         exist={2: ['a']}, compl={1: [[('a', 1.)]]})
s = d.reset()
for a in (start(1), tick()):
    (s, p), = d.get_next_state_distribution(s, a).get_values()
expect('offered', sorted(a.task for a in d.get_applicable_actions(s).get_elements() if a.task), [2])
'''
