exec(open('/verif/tools/plants/_moves_base.py').read())
EVOLVE = MOVES + '''
import random
from skdecide.builders.discrete_optimization.generic_tools.ea.ga import *
from skdecide.builders.discrete_optimization.generic_tools.ea.nsga import Nsga
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import *


def spied(problem):
    seen, ask = [], problem.evaluate_from_encoding

    def asked(vec, name):
        got = ask(vec, name)
        seen.append((list(vec), got))
        return got
    problem.evaluate_from_encoding = asked
    return seen


def knapsack(n):
    return KnapsackModel([Item(i, 1 + i % 3, 1 + i % 2) for i in range(n)], n)

'''
