exec(open('/verif/tools/plants/_gym_base.py').read())
ID = 'c38-boundary-reached-again'
PROP = 'C38'
EDITS = [('skdecide/hub/domain/gym/gym.py', '''                    i = bisect.bisect_left(node.increments, sign * (cell - node.reference))
''', '''                    i = bisect.bisect(node.increments, sign * (cell - node.reference))
''')]
NEEDS = 'a state variable which comes to exactly the same farthest value again'
BREAKS = 'the same state is counted as novel again and again, so that width based searches never prune it'
DEMO = GYM + '''
class D(GymPlanningDomain, GymWidthDomain):
    pass
d = D.__new__(D)
GymPlanningDomain.__init__(d, Line())
GymWidthDomain.__init__(d, 1)
got = [list(d.bee1_features(np.array([float(x)]))) for x in (0, 1, 1, 3, 1, 3, 2, -1, -1)]
expect('features', got, [[0], [1], [1], [2], [1], [2], [2], [-1], [-1]])
'''
