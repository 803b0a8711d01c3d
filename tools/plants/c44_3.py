exec(open('/verif/tools/plants/_compare_base.py').read())
ID = 'c44-schedule-of-the-training-project'
PROP = 'C44'
EDITS = [(RT, '''                sol_ = RCPSPSolution(problem=instance,
                                     rcpsp_permutation=solutions[index_pareto].rcpsp_permutation,
                                     rcpsp_modes=solutions[index_pareto].rcpsp_modes)
''', '''                sol_ = solutions[index_pareto].copy()
                sol_.problem = instance
''')]
NEEDS = 'a solution whose schedule was computed, judged on a project with other durations'
BREAKS = 'the results are those of the project it was found on'
DEMO = ROBUST + '''
a, b, test = project(5, 2), project(5, 2), project(9, 9)
with contextlib.redirect_stdout(io.StringIO()):
    r = RobustnessTool(a, [a, b, test], [a, b], [test]).solve_and_retrieve(solve, apriori=False, aposteriori=False)
expect('makespan', float(r[0, 0, 1]), 18.)
'''
