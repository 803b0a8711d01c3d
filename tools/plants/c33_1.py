exec(open('/verif/tools/plants/_evolve_base.py').read())
ID = 'c33-result-is-the-best-of-the-last-population'
PROP = 'C33'
EDITS = [(DO + 'generic_tools/ea/ga.py', "        best_vector = hof[0]\n", "        best_vector = tools.selBest(pop_vector, 1)[0]\n")]
NEEDS = 'a best individual which is lost to crossover, mutation or selection in a later generation'
BREAKS = 'the search returns something worse than what it had already met'
DEMO = EVOLVE + '''
for seed in range(20):
    random.seed(seed)
    np.random.seed(seed)
    p = knapsack(8)
    seen = spied(p)
    with contextlib.redirect_stdout(io.StringIO()):
        s = Ga(p, encoding='list_taken', objectives=['value'], objective_handling=ObjectiveHandling.SINGLE, objective_weights=[1],
               mutation=DeapMutation.MUT_FLIP_BIT, pop_size=4, max_evals=20, mut_rate=.6, selection=DeapSelection.SEL_RANDOM, deap_verbose=False)
        best = s.solve().get_best_solution()
    expect(f'best value with seed {seed}', p.evaluate(best)['value'], max(o['value'] for _, o in seen))
'''
