exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c10-exact-completion-threshold'
PROP = 'C10'
EDITS = [(SD, '''        for task_id in next_state.tasks_ongoing:
            if next_state.tasks_progress[task_id] >= 0.9999:
                next_state.tasks_progress[task_id] = 1
                completed_tmp.append(task_id)
        for completed_task in completed_tmp:
''', '''        for task_id in next_state.tasks_ongoing:
            if next_state.tasks_progress[task_id] >= 1.:
                next_state.tasks_progress[task_id] = 1
                completed_tmp.append(task_id)
        for completed_task in completed_tmp:
''')]
NEEDS = 'a deterministic task whose accumulated progress rounds below one (e.g. duration 6 or 10)'
BREAKS = 'such a task ends one time step late and holds its resources meanwhile'
DEMO = SCHED + '''
for n in range(1, 30):
    d = make('det', tasks=(1,), dur={(1, 1): [(n, 1.)]})
    s = d.get_next_state(d.reset(), start(1))
    while s.tasks_ongoing:
        s = d.get_next_state(s, tick())
    expect('end of a task of duration %d' % n, s.tasks_details[1].end, n)
'''
