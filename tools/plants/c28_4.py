exec(open('/verif/tools/plants/_local_base.py').read())
ID = 'c28-annealing-of-costs-forgets-its-best'
PROP = 'C28'
EDITS = [(GT + 'ls/simulated_annealing.py', "                global_improvement = objective<cur_best_objective\n", "                global_improvement = objective<cur_objective\n")]
NEEDS = 'annealing of a minimization which worsens, improves without reaching its best again, and then restarts'
BREAKS = 'restarts go to a solution which is not the best one met'
DEMO = LOCAL + '''
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import *
PARAMS.sense_function = ModeOptim.MINIMIZATION
m = Script([1, 6, 5, 7, 8, 8])
start = Sol(4)
h = RestartHandlerLimit(1, start, 4)
sa = SimulatedAnnealing(Prob(), m, h, TemperatureSchedulingFactor(1e30, h, 1.), ModeMutation.MUTATE, PARAMS)
with contextlib.redirect_stdout(io.StringIO()):
    sa.solve(start, 6)
expect('best of the handler', h.solution_best.x, 1)
'''
