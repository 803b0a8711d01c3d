exec(open('/verif/tools/plants/_local_base.py').read())
ID = 'c28-front-of-costs'
PROP = 'C28'
EDITS = [(GT + 'result_storage/result_storage.py', "                    if p[1] > tuple_fitness:\n                        continue\n",
          "                    if p[1] >= tuple_fitness and p[0] is not solution:\n                        continue\n")]
NEEDS = 'a front of a minimization with two solutions of which none dominates the other'
BREAKS = 'the Pareto front of a minimization loses solutions which nothing dominates'
DEMO = LOCAL + '''
f = lambda *v: TupleFitness(np.array(v), 2)
l = [(Sol(0), f(1, 3)), (Sol(1), f(2, 2)), (Sol(2), f(3, 3))]
p = ParetoFront(l, None, mode_optim=ModeOptim.MINIMIZATION)
p.finalize()
expect('front', sorted(s.x for s, _ in p.paretos), [0, 1])
'''
