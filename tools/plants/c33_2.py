exec(open('/verif/tools/plants/_evolve_base.py').read())
ID = 'c33-parents-do-not-survive'
PROP = 'C33'
EDITS = [(DO + 'generic_tools/ea/nsga.py', "pop = self._toolbox.select(pop + offspring, self._pop_size)", "pop = self._toolbox.select(offspring, self._pop_size)")]
NEEDS = 'a generation whose children are all worse than a parent'
BREAKS = 'the best compromises met so far are lost from one generation to the next'
DEMO = EVOLVE + '''
for seed in range(200):
    random.seed(seed)
    np.random.seed(seed)
    p = KnapsackModel_Mobj([Item(i, 1 + i % 3, 1 + i % 2) for i in range(9)], 100)
    seen = spied(p)
    with contextlib.redirect_stdout(io.StringIO()):
        s = Nsga(p, encoding='list_taken', objectives=['value', 'weight'], objective_weights=[1., 1.],
                 mutation=DeapMutation.MUT_FLIP_BIT, pop_size=4, max_evals=24, mut_rate=.45, crossover_rate=.5, deap_verbose=False)
        out = s.solve().list_solution_fits
    res = [p.evaluate(t) for t, _ in out]
    for x, o in seen:
        if all(o['value'] > r['value'] and o['weight'] > r['weight'] for r in res):
            expect(f'returned with seed {seed}', res, o)
'''
