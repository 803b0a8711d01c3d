exec(open('/verif/tools/plants/_skills_base.py').read())
ID = 'c35-shift-frees-the-second-person'
PROP = 'C35'
EDITS = [(MS + 'solvers/lns_post_process_rcpsp.py', "            for emp in employee_used:\n                worker_avail_in_time[emp][t] = False\n", "            for emp in employee_used[:max(1, len(needs))]:\n                worker_avail_in_time[emp][t] = False\n")]
NEEDS = 'a task done by more people than there are renewable resources, and a schedule with room to the left for another task of the last of them'
BREAKS = 'the shifted schedule has a person do two tasks at a time'
DEMO = SKILLS + '''
from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.lns_post_process_rcpsp import sgs_variant
p = project([{1: {'duration': 3, 'A': 2}}, {1: {'duration': 2, 'B': 1}}], {'x': person({'A': 1}), 'y': person({'A': 1, 'B': 1})})
s = MS_RCPSPSolution(problem=p, modes={t: 1 for t in range(1, 5)}, employee_usage={2: {'x': {'A'}, 'y': {'A'}}, 3: {'y': {'B'}}},
                     schedule={1: {'start_time': 0, 'end_time': 0}, 2: {'start_time': 1, 'end_time': 4}, 3: {'start_time': 7, 'end_time': 9}, 4: {'start_time': 9, 'end_time': 9}})
expect('valid before', verdict(p, s), True)
g = p.compute_graph()
new = sgs_variant(s, p, {n: g.get_predecessors(n) for n in g.nodes_name})
expect('shifted', starts(new), [0, 0, 3, 5])
'''
