exec(open('/verif/tools/plants/_compare_base.py').read())
ID = 'c44-scenario-of-the-last-storage'
PROP = 'C44'
EDITS = [(RC, '''                    res.get_best_solution().change_problem(scenario)
                    val =''', '''                    if obj == self.objectives_str[0]:
                        res.get_best_solution().change_problem(scenario)
                    val =''')]
NEEDS = 'several objectives and several test problems'
BREAKS = 'objectives after the first are computed with the solution set to the last test problem'
DEMO = MOVES + '''
import skdecide.utils
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator


class Sol:
    def change_problem(self, p):
        self.problem = p


class Scenario:
    def __init__(self, k):
        self.k = k

    def evaluate(self, s):
        return {'x': s.problem.k, 'y': 10 * s.problem.k}


with contextlib.redirect_stdout(io.StringIO()):
    c = ResultComparator([ResultStorage([(Sol(), 1.)])], ['s'], ['x', 'y'], [1, 1], test_problems=[Scenario(1), Scenario(2)])
expect('values', c.reevaluated_results[0], {'x': [1, 2], 'y': [10, 20]})
'''
