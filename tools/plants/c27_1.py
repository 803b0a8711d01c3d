exec(open('/verif/tools/plants/_search_base.py').read())
ID = 'c27-no-cheaper-way'
PROP = 'C27'
EDITS = [(LAZY, "                    if qcost <= ncost:\n", "                    if qcost <= ncost + h:\n")]
NEEDS = 'a state which is first reached by a costlier way and whose estimate is at least the difference'
BREAKS = 'the plan found is not a cheapest one'
DEMO = SEARCH + '''
from skdecide.hub.solver.lazy_astar import LazyAstar


class A(G):
    edges = {0: [(0, 1, 1), (1, 2, 4)], 1: [(0, 2, 1)], 2: [(0, 3, 3)], 3: []}
    goal = 3


h = {0: 5, 1: 4, 2: 3, 3: 0}
s = LazyAstar(heuristic=lambda d, x: h[x])
s.solve(A)
expect('way', run(s, A), ([0, 1, 2, 3], 5))
'''
