exec(open('/verif/tools/plants/_moves_base.py').read())
RC = DO + 'generic_tools/result_storage/resultcomparator.py'
RT = DO + 'generic_tools/robustness/robustness_tool.py'
STORES = MOVES + '''
import skdecide.utils
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator


def store(fits, sense='MAXIMIZATION'):
    return ResultStorage([(f'{v}', TupleFitness(np.array(v), len(v))) for v in fits], mode_optim=ModeOptim[sense])
'''
ROBUST = MOVES + '''
import time
with contextlib.redirect_stdout(io.StringIO()):
    import skdecide.utils
    from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
    from skdecide.builders.discrete_optimization.generic_tools.robustness.robustness_tool import RobustnessTool
    from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import SingleModeRCPSPModel, Aggreg_RCPSPModel, RCPSPSolution


def project(*durations):
    n = len(durations)
    zero = {1: {'R': 0, 'duration': 0}}
    return SingleModeRCPSPModel(resources={'R': 1}, non_renewable_resources=[], horizon=100,
                                mode_details={1: zero, n + 2: zero, **{k + 2: {1: {'R': 1, 'duration': d}} for k, d in enumerate(durations)}},
                                successors={1: list(range(2, n + 3)), n + 2: [], **{k: [n + 2] for k in range(2, n + 2)}})


def solve(model):
    post = isinstance(model, Aggreg_RCPSPModel)
    if post:
        time.sleep(.5)
    m = model.list_problem[0] if post else model
    return ResultStorage([], best_solution=RCPSPSolution(problem=m, rcpsp_permutation=[0, 1] if post else [1, 0], rcpsp_modes=[1, 1]))
'''
