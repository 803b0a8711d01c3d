exec(open('/verif/tools/plants/_evolve_base.py').read())
ID = 'c33-mutations-forget-the-last-element'
PROP = 'C33'
EDITS = [(DO + 'generic_tools/ea/deap_wrappers.py', "    for i in range(len(tmp_vector)):\n", "    for i in range(len(individual) - 1):\n")]
NEEDS = 'a mutation of the problem that moves the last element of a permutation'
BREAKS = 'individuals become vectors with a value twice and one missing; they are evaluated as if they were permutations'
DEMO = EVOLVE + '''
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import *
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import PermutationShuffleMutation
random.seed(3)
np.random.seed(3)
m = SingleModeRCPSPModel(resources={'r': 1}, non_renewable_resources=[],
                         mode_details={t: {1: {'r': 1 if 1 < t < 6 else 0, 'duration': {1: 0, 6: 0}.get(t, t)}} for t in range(1, 7)},
                         successors={t: [6] if t < 6 else [] for t in range(1, 7)}, horizon=40)
seen = spied(m)
with contextlib.redirect_stdout(io.StringIO()):
    Ga(m, encoding='rcpsp_permutation', objectives=['makespan'], objective_handling=ObjectiveHandling.SINGLE, objective_weights=[-1],
       mutation=PermutationShuffleMutation.build(m, m.get_dummy_solution(), attribute='rcpsp_permutation'),
       pop_size=4, max_evals=20, mut_rate=.6, deap_verbose=False).solve()
for x, _ in seen:
    expect('vector', sorted(x), list(range(4)))
'''
