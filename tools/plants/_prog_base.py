exec(open('/verif/tools/plants/_moves_base.py').read())
PROG = MOVES + '''
import os, random, shutil, tempfile, warnings
warnings.simplefilter('ignore')
with contextlib.redirect_stderr(io.StringIO()):
    import gym
from skdecide.hub.domain.gym import GymDomain
from skdecide.hub.solver.cgp import CGP as Wrapper
from skdecide.hub.solver.cgp.cgp import SkDecideEvaluator, norm_and_flatten, denorm
from skdecide.hub.solver.cgp.pycgp.cgp import CGP
from skdecide.hub.solver.cgp.pycgp.cgpes import CGPES
from skdecide.hub.solver.cgp.pycgp.cgpfunctions import *
from skdecide.hub.solver.ars import AugmentedRandomSearch
F = CGP.CGPFunc
LIB = [F(f_sum, 'sum', 2), F(f_abs, 'abs', 1), F(f_mult, 'mult', 2), F(f_one, 'one', 0)]
DIR = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, DIR)


class Scores:
    """gives programs the fitness of a list"""
    def __init__(self, scores):
        self.scores, self.seen = list(scores), []

    def evaluate(self, cgp, it, verbose=False):
        self.seen.append([int(g) for g in cgp.genome])
        return self.scores.pop(0)

    def clone(self):
        return self
'''
