exec(open('/verif/tools/plants/c19_time_margin.py').read())
ID = 'c19-plan-of-started-task-first'
PROP = 'C19'
EDITS = [(SG, '''                                     if task_id != next_task_to_launch
                                     and policy_rcpsp.schedule[task_id]["start_time"] == original_time_start_task
                                     and task_id in possible_task_to_launch]
''', '''                                     if task_id != next_task_to_launch
                                     and policy_rcpsp.schedule[task_id]["start_time"] <= original_time_start_task
                                     and task_id in possible_task_to_launch]
''')]
NEEDS = 'the first ready task does not fit and a later one of the order is planned earlier'
BREAKS = 'the precedence policy overtakes its first ready task with a task planned at another time'
DEMO = SCHED + POL + '''
d = make('det', tasks=(1, 2, 3), modes={1: {1: {'r': 1}}, 2: {1: {'r': 2}}, 3: {1: {'r': 1}}},
         dur={(1, 1): [(9, 1.)], (2, 1): [(1, 1.)], (3, 1): [(1, 1.)]})
p = policy(d, BasePolicyMethod.SGS_PRECEDENCE, [1, 2, 3], {1: 0, 2: 2, 3: 1})
s = d.get_next_state(d.reset(), start(1))
expect('waiting', told(p, s), (None, 'TIME_PR'))
'''
