exec(open('/verif/tools/plants/_search_base.py').read())
ID = 'c27-first-trial-wins'
PROP = 'C27'
EDITS = [(LRTA, "                    self._policy[current_roll[k][0]] = current_roll[k][1][\"action\"]\n",
          "                    self._policy.setdefault(current_roll[k][0], current_roll[k][1][\"action\"])\n")]
NEEDS = 'a later trial which finds a cheaper way through a state of an earlier one'
BREAKS = 'the policy mixes several trials: it is not cheapest, or runs in a circle'
DEMO = SEARCH + '''
from skdecide.hub.solver.lrtastar import LRTAstar


class A(G):
    edges = {0: [(0, 1, 1), (1, 2, 2)], 1: [(0, 3, 9)], 2: [(0, 3, 2)], 3: []}
    goal = 3


s = LRTAstar()
quiet(s.solve, A)
expect('way', run(s, A)[1], 4)
'''
