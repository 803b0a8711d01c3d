exec(open('/verif/tools/plants/_env_base.py').read())
ID = 'c26-loaded-solver-gets-raw-domain'
PROP = 'C26'
EDITS = [('skdecide/domains.py', "            solver.load(load_path, cast_domain_factory)\n", "            solver.load(load_path, domain_factory)\n")]
NEEDS = 'a restored solver which asks for more general characteristics than its domain has'
BREAKS = 'a solver restored from a file works on domains which answer in their own terms instead of the solver\'s'
DEMO = ENV + '''
from skdecide.builders.solver import *


class Dom(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, Markovian,
          FullyObservable, PositiveCosts):
    def _get_initial_state_(self):
        return 7


class T(Domain, DeterministicTransitions, Actions, DeterministicInitialized, FullyObservable):
    pass


class S(Solver, DeterministicPolicies, Restorable):
    T_domain = T

    def _solve_domain(self, f):
        self.first = f().reset()

    def _save(self, path):
        pass

    def _load(self, path, f):
        self.first = f().reset()


s = Dom.solve_with(S())
expect('solved', s.first, {'agent': 7})
s = Dom.solve_with(S(), load_path='/nonexistent')
expect('loaded', s.first, {'agent': 7})
'''
