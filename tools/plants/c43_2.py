exec(open('/verif/tools/plants/_files_base.py').read())
ID = 'c43-project-ends-with-last-start'
PROP = 'C43'
EDITS = [(SK, '''    last_time = max([schedule_recomputed[x]["end_time"] for x in schedule_recomputed])
''', '''    last_task = max(schedule_recomputed, key=lambda x: schedule_recomputed[x]["start_time"])
    last_time = schedule_recomputed[last_task]["end_time"]
''')]
NEEDS = 'a solution in which a long task ends after the task which starts last'
BREAKS = 'the recomputed project ends before one of its tasks'
DEMO = FILES + '''
m, names = project(['1 50 Q0: 0', '2 3 Q0: 0'])
s = p.recompute_solution(m, names, {1: 0, 2: 4}, {1: 1, 2: 2})
expect('end', s.schedule[4]['end_time'], 50)
'''
