exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c32-empty-routes-carry-nothing-at-their-end'
PROP = 'C32'
EDITS = [(DO + 'vrp/vrp_model.py', '''        lengths = [obj]
        capacity = list_customers[start_index].demand
        if end_index != start_index:
            capacity += list_customers[end_index].demand
''', '''        lengths = [obj]
        capacity = list_customers[start_index].demand
''')]
NEEDS = 'a vehicle without customers which ends elsewhere than it starts, at a customer beyond its capacity'
BREAKS = 'the demand at the end of the route is not counted: the solution passes as feasible'
DEMO = MOVES + '''
from skdecide.builders.discrete_optimization.vrp.vrp_model import *
m = VrpProblem2D(2, [5, 5], 4, [Customer2D(i, d, i, 0) for i, d in enumerate([0, 2, 3, 7])], [0, 0], [0, 3])
s = VrpSolution(problem=m, list_start_index=[0, 0], list_end_index=[0, 3], list_paths=[[1, 2], []])
expect('objectives', m.evaluate(s), {'length': 7., 'capacity_violation': 2})
expect('satisfied', m.satisfy(s), False)
'''
