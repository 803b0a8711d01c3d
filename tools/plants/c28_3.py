exec(open('/verif/tools/plants/_local_base.py').read())
ID = 'c28-climbs-the-wrong-best'
PROP = 'C28'
EDITS = [(GT + 'ls/hill_climber.py', "                cur_best_objective = objective\n                cur_best_variable = cur_variable.copy()\n                if not self.store_solution:\n",
          "                cur_best_variable = cur_variable.copy()\n                if not self.store_solution:\n"),]
NEEDS = 'a restart handler which sends the search back, and an improvement on the start which is worse than the best'
BREAKS = 'every improvement over the start counts as a new best: the restart handler sends the search to solutions which are not the best'
DEMO = LOCAL + '''


class Away(RestartHandler):
    """sends the search back to the start once, then works as usual"""
    def restart(self, s, f):
        return (Sol(0), 0) if self.nb_iteration == 1 else (s, f)


m = Script([5, 3, 0])
h = Away()
with contextlib.redirect_stdout(io.StringIO()):
    HillClimber(Prob(), m, h, ModeMutation.MUTATE, PARAMS).solve(Sol(0), 3)
expect('best of the handler', (h.solution_best.x, h.best_fitness), (5, 5))
'''
