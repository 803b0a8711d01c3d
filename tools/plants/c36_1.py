exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c36-knapsack-table-remembers'
PROP = 'C36'
EDITS = [(DO + 'knapsack/solvers/dyn_prog_knapsack.py', '''                if weight>capacity:
                    self.table[nb_item, capacity] = self.table[nb_item-1, capacity]
                    continue
                self.table[nb_item, capacity] = max(self.table[nb_item-1, capacity], 
                                                    self.table[nb_item-1, capacity-weight]+value)
''', '''                self.table[nb_item, capacity] = max(self.table[nb_item, capacity],
                                                    self.table[nb_item-1, capacity])
                if weight>capacity:
                    continue
                self.table[nb_item, capacity] = max(self.table[nb_item, capacity],
                                                    self.table[nb_item-1, capacity-weight]+value)
''')]
NEEDS = 'one dynamic programming solver asked twice, with the items taken in another order the second time'
BREAKS = 'dynamic programming over a knapsack returns selections which exceed the capacity or are not the best'
DEMO = MOVES + '''
import itertools, random
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import *
from skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack import KnapsackDynProg
for seed in range(60):
    r = random.Random(seed)
    n, cap = r.randint(2, 6), r.randint(2, 12)
    items = [Item(i, r.randint(1, 9), r.randint(1, 8)) for i in range(n)]
    best = max(sum(i.value for i in c) for k in range(n + 1) for c in itertools.combinations(items, k)
               if sum(i.weight for i in c) <= cap)
    p = KnapsackModel(list_items=items, max_capacity=cap)
    s = KnapsackDynProg(p)
    for start in (False, True, False):
        with contextlib.redirect_stdout(io.StringIO()):
            got = s.solve(greedy_start=start).get_best_solution_fit()[0]
        taken = [i for i, t in zip(items, got.list_taken) if t]
        expect(f'seed {seed}: value', sum(i.value for i in taken), best)
        expect(f'seed {seed}: fits', sum(i.weight for i in taken) <= cap, True)
'''
