exec(open('/verif/tools/plants/_skills_base.py').read())
ID = 'c35-overlap-by-the-last-hour'
PROP = 'C35'
EDITS = [(MS + 'rcpsp_multiskill.py', "         or i1[0] >= i2[1]):\n", "         or i1[0] + 1 >= i2[1]):\n")]
NEEDS = 'somebody who starts a task while another with a higher number is in its last unit of time'
BREAKS = 'a schedule in which somebody does two tasks at a time is called valid'
DEMO = SKILLS + '''
p = project([{1: {'duration': 3, 'A': 1}}, {1: {'duration': 4, 'A': 1}}], {'x': person({'A': 1})})
s = MS_RCPSPSolution(problem=p, modes={t: 1 for t in range(1, 5)}, employee_usage={2: {'x': {'A'}}, 3: {'x': {'A'}}},
                     schedule={1: {'start_time': 0, 'end_time': 0}, 2: {'start_time': 3, 'end_time': 6}, 3: {'start_time': 0, 'end_time': 4}, 4: {'start_time': 6, 'end_time': 6}})
expect('verdict', verdict(p, s), False)
'''
