exec(open('/verif/tools/plants/_local_base.py').read())
ID = 'c29-only-the-best-is-kept'
PROP = 'C29'
EDITS = [(GT + 'lns_cp.py', "                        for s, f in result_store.list_solution_fits:\n                            store_lns.add_solution(solution=s, fitness=f)\n",
          "                        store_lns.add_solution(solution=bsol, fitness=fit)\n")]
NEEDS = 'an iteration whose sub-solver finds several solutions'
BREAKS = 'all but the best solution of an iteration are lost'
DEMO = LNS + '''
expect('found', lns([[4], [6, 5]])[1], [0, 4, 5, 6])
'''
