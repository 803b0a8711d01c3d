exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c16-stale-goals-shared-by-class'
PROP = 'C16'
EDITS = [('skdecide/builders/domain/goals.py', '''    @functools.lru_cache()
    def _get_goals(self) -> D.T_agent[Space[D.T_observation]]:
''', '''    def _get_goals(self) -> D.T_agent[Space[D.T_observation]]:
'''), ('skdecide/builders/domain/goals.py', '''        return self._get_goals_()
''', '''        cls = type(self)
        if '_goals' not in cls.__dict__:
            cls._goals = self._get_goals_()
        return cls._goals
''')]
NEEDS = 'two domains of one class with different goals, queried one after the other'
BREAKS = 'the second domain answers with the goals of the first'
DEMO = ENV + '''
class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, Goals,
        DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
    def __init__(self, goal): self.goal = goal
    def _get_goals_(self): return ImplicitSpace(lambda s: s == self.goal)
expect('goal of the first', D(1).is_goal(1), True)
expect('goal of the second', D(2).is_goal(2), True)
'''
