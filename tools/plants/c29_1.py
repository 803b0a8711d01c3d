exec(open('/verif/tools/plants/_local_base.py').read())
ID = 'c29-equal-counts-as-better'
PROP = 'C29'
EDITS = [(GT + 'lns_cp.py', "                        if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:\n                            if fit > best_objective:\n",
          "                        if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:\n                            if fit >= best_objective:\n")]
NEEDS = 'a limit of iterations without improvement, and iterations which find the best fitness again'
BREAKS = 'the search does not end after the allowed number of iterations without improvement'
DEMO = LNS + '''
expect('solves', lns([[4], [4], [4], [4], [4]], nb_iteration_no_improvement=1)[0], 3)
'''
