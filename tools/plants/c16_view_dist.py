exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c16-view-keeps-impossible-outcomes'
PROP = 'C16'
EDITS = [('skdecide/core.py', '''        return DiscreteDistribution([(cast(e, src_sub[0], dst_sub[0]), p) for e, p in self._values])
''', '''        values = [cast(v, src_sub[0], dst_sub[0]) for v, p in self._values if p]
        return DiscreteDistribution([(v, p) for v, (_, p) in zip(values, self._values)])
''')]
NEEDS = 'a distribution that lists an impossible value, looked at by a multi-agent solver'
BREAKS = 'the probabilities of the values are shifted by one'
DEMO = ENV + '''
from skdecide.core import autocast_all
class D(Domain, SingleAgent, Sequential, Simulation, UnrestrictedActions, DeterministicInitialized, Markovian,
        PartiallyObservable, PositiveCosts):
    def _get_observation_distribution(self, state, action=None):
        return DiscreteDistribution([(1, .2), (2, 0.), (3, .8)])
class View(Domain, Sequential, Markovian):
    pass
d = D()
autocast_all(d, d, View)
got = {v['agent']: p for v, p in d.get_observation_distribution(0, {'agent': 0}).get_values() if p}
expect('distribution', got, {1: .2, 3: .8})
'''
