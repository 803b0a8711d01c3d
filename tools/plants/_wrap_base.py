exec(open('/verif/tools/plants/_moves_base.py').read())
WRAP = MOVES + '''
import sys
import types
import importlib
import enum
ext = types.ModuleType('__skdecide_hub_cpp')


class Planner:
    """plans for one state at a time"""
    def __init__(self, **kw):
        self.kw, self.plan, self.solves = kw, {}, 0

    def clear(self):
        self.plan = {}

    def solve(self, s):
        self.solves += 1
        self.plan[s] = ('go', self.solves)

    def is_solution_defined_for(self, s):
        return s in self.plan

    def get_next_action(self, s):
        return self.plan.get(s)

    def get_utility(self, s):
        return 0.


for n in ['AStar', 'AOStar', 'ILAOStar', 'LRTDP', 'IW', 'RIW', 'BFWS', 'MCTS']:
    setattr(ext, f'_{n}Solver_', Planner)


class Any:
    def __getattr__(self, name):
        return Any()


ext._MCTSOptions_ = Any()
sys.modules['__skdecide_hub_cpp'] = ext
from skdecide import *
import skdecide.builders.solver.parallelability as par


class Dom(DeterministicPlanningDomain):
    T_state, T_observation, T_event, T_value, T_info = int, int, str, float, None


class Parallel:
    """runs what it is given at once"""
    living = 0

    def __init__(self, factory, *proxy, lambdas=None, **kw):
        self.lambdas, self.dom = lambdas, factory()

    def _launch_processes(self):
        Parallel.living += 1

    def close(self):
        Parallel.living -= 1

    def call(self, i, f, *args):
        self.result = self.lambdas[f](self.dom, *args)
        return 0

    def get_result(self, i):
        return self.result


par.PipeParallelDomain = par.ShmParallelDomain = Parallel


def wrapper(module, cls):
    return getattr(importlib.import_module(f'skdecide.hub.solver.{module}.{module}'), cls)
'''
