exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c36-tour-distances-by-index'
PROP = 'C36'
EDITS = [(DO + 'tsp/solver/solver_ortools.py', '''            def distance_callback(from_index, to_index):
                from_node = manager.IndexToNode(from_index)
                to_node = manager.IndexToNode(to_index)
                return distance_matrix''', '''            def distance_callback(from_index, to_index):
                # only the end of a route has an index which is not a node, and no arc leaves it.
                from_node = from_index
                to_node = manager.IndexToNode(to_index)
                return distance_matrix''')]
NEEDS = 'a travelling salesman who ends elsewhere than where he starts, at a node numbered before others'
BREAKS = 'the route found is not the shortest, as it is compared by the distances of other nodes'
DEMO = MOVES + '''
import itertools, random
from skdecide.builders.discrete_optimization.tsp.tsp_model import TSPModel2D, Point2D
from skdecide.builders.discrete_optimization.tsp.solver.solver_ortools import TSP_ORtools
for seed in range(6):
    r = random.Random(seed)
    n = 7
    pts = [Point2D(r.randint(0, 30), r.randint(0, 30)) for _ in range(n)]
    d = lambda a, b: ((pts[a].x - pts[b].x) ** 2 + (pts[a].y - pts[b].y) ** 2) ** .5
    for start, end in ((0, 0), (0, 2), (4, 1)):
        inner = [k for k in range(n) if k not in (start, end)]
        long = lambda perm: sum(d(a, b) for a, b in zip([start] + list(perm), list(perm) + [end]))
        p = TSPModel2D(pts, n, start_index=start, end_index=end)
        s = TSP_ORtools(p, None)
        with contextlib.redirect_stdout(io.StringIO()):
            s.init_model()
            s.search_parameters.time_limit.seconds = 1
            got = s.solve().get_best_solution_fit()[0]
        best = min(map(long, itertools.permutations(inner)))
        expect(f'seed {seed} {start}-{end}: nodes', sorted(got.permutation), inner)
        expect(f'seed {seed} {start}-{end}: length', long(got.permutation) <= best + 1e-3, True)
'''
