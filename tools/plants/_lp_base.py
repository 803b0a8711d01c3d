exec(open('/verif/tools/plants/_do_base.py').read())
EXACT = open('/verif/harness/exact.py').read().replace('from harness.backends import State\n', 'import types\nState = types.SimpleNamespace(run=None)\n')
PROGRAM = PROJECT + EXACT + '''
class _Run:
    early, faults = None, {}
    def event(self, *a): pass
    class rng:
        choice = staticmethod(lambda l: l[0])
State.run = _Run()
install()
from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_lp_solver import LP_RCPSP, LP_MRCPSP
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
'''
