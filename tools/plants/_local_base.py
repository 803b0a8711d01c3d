GT = 'skdecide/builders/discrete_optimization/generic_tools/'
LOCAL = '''
import contextlib, io, sys
import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.do_problem import *
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import *
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import *
from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import *
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import *
from skdecide.builders.discrete_optimization.generic_tools.result_storage.multiobj_utils import TupleFitness


def expect(what, got, exp):
    if got != exp:
        print(what, got, 'expected', exp)
        sys.exit(1)


class Sol(Solution):
    def __init__(self, x):
        self.x = x

    def copy(self):
        return Sol(self.x)


class Prob(Problem):
    sense = ModeOptim.MAXIMIZATION

    def evaluate(self, s):
        return {'f': s.x}

    def satisfy(self, s):
        return True

    def get_objective_register(self):
        return ObjectiveRegister(self.sense, ObjectiveHandling.SINGLE,
                                 {'f': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}})


PARAMS = ParamsObjectiveFunction(ObjectiveHandling.SINGLE, ['f'], [1], ModeOptim.MAXIMIZATION)


class Undo(LocalMove):
    def __init__(self, x):
        self.x = x

    def backtrack_local_move(self, s):
        s.x = self.x
        return s


class Script(Mutation):
    """in-place moves to the given values; notes where it is asked to move from"""
    def __init__(self, xs):
        self.xs, self.came = list(xs), []

    def mutate(self, s):
        self.came.append(s.x)
        old = s.x
        s.x = self.xs.pop(0)
        return s, Undo(old)
'''
LNS = '''
import contextlib, io, sys
from skdecide.builders.discrete_optimization.generic_tools.do_problem import *
from skdecide.builders.discrete_optimization.generic_tools import lns_cp, lns_mip
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import *
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import *


def expect(what, got, exp):
    if got != exp:
        print(what, got, 'expected', exp)
        sys.exit(1)


class Sol(Solution):
    def __init__(self, x):
        self.x = x

    def copy(self):
        return Sol(self.x)


class Prob(Problem):
    def evaluate(self, s):
        return {'f': s.x}

    def satisfy(self, s):
        return True

    def get_objective_register(self):
        return ObjectiveRegister(ModeOptim.MAXIMIZATION, ObjectiveHandling.SINGLE,
                                 {'f': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}})


def store(xs):
    return ResultStorage([(Sol(x), x) for x in xs], mode_optim=ModeOptim.MAXIMIZATION)


class Init(lns_mip.InitialSolution):
    def get_starting_solution(self):
        return store([0])


class Handler(lns_cp.ConstraintHandler):
    def adding_constraint_from_results_store(self, cp_solver, child_instance, result_storage):
        return {}


class Cp(CPSolver):
    """finds the given values, one list per iteration; an exception is raised"""
    def __init__(self, found):
        self.found, self.solves = list(found), 0
        self.instance = self

    @contextlib.contextmanager
    def branch(self):
        yield self

    status = 'x'

    def solve(self, **k):
        self.solves += 1
        self.now = self.found.pop(0)
        if isinstance(self.now, Exception):
            raise self.now
        return self

    def retrieve_solutions(self, r, parameters_cp):
        return store(self.now)


def lns(found, **k):
    cp = Cp(found)
    with contextlib.redirect_stdout(io.StringIO()):
        out = lns_cp.LNS_CP(Prob(), cp, Init(), Handler()).solve_lns(ParametersCP.default(), len(found), **k)
    return cp.solves, sorted(s.x for s, _ in out.list_solution_fits)
'''
