exec(open('/verif/tools/plants/_search_base.py').read())
ID = 'c27-values-outlive-solve'
PROP = 'C27'
EDITS = [(LRTA, "        self._domain = domain_factory()\n        self.values = {}\n", "        self._domain = domain_factory()\n")]
NEEDS = 'one solver object solving a second domain with the same states but cheaper ways'
BREAKS = 'the values learnt for an earlier domain steer the search of the next one: costlier ways, utilities above the true cost'
DEMO = SEARCH + '''
from skdecide.hub.solver.lrtastar import LRTAstar


class A(G):
    edges = {0: [(0, 1, 1)], 1: [(0, 3, 50)], 2: [(0, 3, 5)], 3: []}
    goal = 3


class B(G):
    edges = {0: [(0, 1, 1), (1, 2, 2)], 1: [(0, 3, 1)], 2: [(0, 3, 5)], 3: []}
    goal = 3


s = LRTAstar()
quiet(s.solve, A)
quiet(s.solve, B)
expect('way', run(s, B), ([0, 1, 3], 2))
'''
