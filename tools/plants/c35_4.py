exec(open('/verif/tools/plants/_skills_base.py').read())
ID = 'c35-after-the-last-one-planned'
PROP = 'C35'
EDITS = [(MS + 'rcpsp_multiskill.py', "                minimum_starting_time[s] = max(minimum_starting_time[s], activity_end_times[act_id])  # 20", "                minimum_starting_time[s] = activity_end_times[act_id]  # 20")]
NEEDS = 'a task after two others, of which the one planned first ends last'
BREAKS = 'a task starts before another which must precede it has ended'
DEMO = SKILLS + '''
p = project([{1: {'duration': 5, 'A': 1}}, {1: {'duration': 2, 'B': 1}}, {1: {'duration': 1}}], {'x': person({'A': 1}), 'y': person({'B': 1})}, succ={2: [4, 5], 3: [4, 5]})
s = solution(p, [0, 1, 2])
expect('starts', starts(s), [0, 0, 0, 5, 6])
'''
