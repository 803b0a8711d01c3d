exec(open('/verif/tools/plants/_local_base.py').read())
ID = 'c28-restart-from-the-best-itself'
PROP = 'C28'
EDITS = [(GT + 'ls/local_search.py', "            return self.solution_best.copy(), self.best_fitness\n", "            return self.solution_best, self.best_fitness\n")]
NEEDS = 'moves which work in place, and two restarts, with a worsening move accepted or a better one in between'
BREAKS = 'the best solution is modified by the search after a restart; the next restart goes to another solution under its fitness'
DEMO = LOCAL + '''
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import *
m = Script([5, 3, 2, 3, 2, 1, 1])
start = Sol(1)
h = RestartHandlerLimit(1, start, 1)
sa = SimulatedAnnealing(Prob(), m, h, TemperatureSchedulingFactor(1e30, h, 1.), ModeMutation.MUTATE, PARAMS)
with contextlib.redirect_stdout(io.StringIO()):
    sa.solve(start, 7)
expect('path', m.came, [1, 5, 3, 5, 3, 5, 1])
'''
