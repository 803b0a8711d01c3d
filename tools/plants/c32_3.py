exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c32-two-opt-closes-open-tours'
PROP = 'C32'
EDITS = [(DO + 'tsp/mutation/mutation_tsp.py', '''        i_before = None
        j_after = None
        perm = variable.permutation
        i = perm[it]
        j = perm[jt]
        if it == 0:
            i_before = variable.start_index
        else:
            i_before = perm[it-1]
        if jt == self.length_permutation-1:
            j_after = variable.end_index
''', '''        i_before = None
        j_after = None
        perm = variable.permutation
        i = perm[it]
        j = perm[jt]
        if it == 0:
            i_before = variable.start_index
        else:
            i_before = perm[it-1]
        if jt == self.length_permutation-1:
            j_after = variable.start_index
''')]
NEEDS = 'a 2-opt move which reaches the last stop of a tour that ends elsewhere than it starts'
BREAKS = 'the move reports a length which is not that of the new tour'
DEMO = MOVES + '''
import random
from skdecide.builders.discrete_optimization.tsp.tsp_model import *
from skdecide.builders.discrete_optimization.tsp.mutation.mutation_tsp import *
m = TSPModel2D([Point2D(x, y) for x, y in ((0, 0), (3, 1), (1, 4), (5, 2), (9, 3))], 5, start_index=0, end_index=4, use_numba=False)
s = SolutionTSP(problem=m, start_index=0, end_index=4, permutation=[1, 2, 3])
m.evaluate(s)
with contextlib.redirect_stdout(io.StringIO()):
    mut = Mutation2Opt(m, test_all=False, nb_test=1)
random.seed(3)
for _ in range(60):
    new, move, obj = mut.mutate_and_compute_obj(s)
    fresh = SolutionTSP(problem=m, start_index=0, end_index=4, permutation=list(new.permutation))
    expect(f'length of {new.permutation}', round(obj['length'], 6), round(m.evaluate(fresh)['length'], 6))
'''
