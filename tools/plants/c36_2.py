exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c36-colouring-compares-with-the-last-strategy'
PROP = 'C36'
EDITS = [(DO + 'coloring/solvers/greedy_coloring.py', '''                    best_solution = solution
                    best_nb_color = number_colors
''', '''                    best_solution = solution
                best_nb_color = number_colors
''')]
NEEDS = 'a graph on which a strategy is worse than an earlier one, and a later strategy better than that one but not than the first'
BREAKS = 'the best greedy colouring is not the best of the strategies tried'
DEMO = MOVES + '''
import random
import networkx as nx
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem
from skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring import GreedyColoring, NXGreedyColoringMethod
for seed in range(150):
    g = nx.gnp_random_graph(14, 0.4, seed=seed)
    p = ColoringProblem(Graph(nodes=[(n, {}) for n in g.nodes()], edges=[(a, b, {}) for a, b in g.edges()], undirected=True))
    used = {}
    for m in NXGreedyColoringMethod:
        random.seed(0)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                used[m] = len(set(GreedyColoring(p).solve(strategy=m).get_best_solution_fit()[0].colors))
            except Exception:
                continue
    fixed = {n for m, n in used.items() if m not in (NXGreedyColoringMethod.best, NXGreedyColoringMethod.random_sequential)}
    expect(f'graph {seed}: best of the strategies', used[NXGreedyColoringMethod.best] <= min(fixed), True)
'''
