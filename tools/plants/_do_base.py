exec(open('/verif/tools/plants/_moves_base.py').read())
PROJECT = MOVES + '''
import types, random
import importlib.util
if importlib.util.find_spec('gurobi') is None:
    g = types.ModuleType('gurobi')
    g.Model = g.LinExpr = g.Var = object
    g.GRB, g.quicksum = types.SimpleNamespace(), sum
    sys.modules['gurobi'] = g
with contextlib.redirect_stdout(io.StringIO()):
    from skdecide.builders.discrete_optimization.rcpsp.solver import rcpsp_pile
    from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import *
    from skdecide.hub.domain.rcpsp.rcpsp_sk import *
    from skdecide.hub.solver.do_solver import do_solver_scheduling as dos
    from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyMethodParams, BasePolicyMethod


class Modes:
    chosen = None

    def __init__(self, *a, **k):
        pass

    def solve(self, **k):
        return [Modes.chosen]


rcpsp_pile.CP_MRCPSP_MZN_MODES = Modes
'''
