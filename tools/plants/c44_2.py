exec(open('/verif/tools/plants/_compare_base.py').read())
ID = 'c44-best-by-the-sign-of-weights'
PROP = 'C44'
EDITS = [(RC, '''            if self.list_result_storage[i].maximize:
''', '''            if self.objective_weights[obj_index] > 0:
''')]
NEEDS = 'a storage of results to be minimized'
BREAKS = 'its worst solution is shown as its best'
DEMO = STORES + '''
c = ResultComparator([store([[3, 1], [1, 3]], 'MINIMIZATION')], ['s'], ['x', 'y'], [1, 1])
expect('best', int(c.get_best_by_objective_by_result_storage('x')['s'][1].vector_fitness[0]), 1)
'''
