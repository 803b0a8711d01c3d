exec(open('/verif/tools/plants/_moves_base.py').read())
GYM = MOVES + '''
import warnings
warnings.simplefilter('ignore')
with contextlib.redirect_stderr(io.StringIO()):
    import gym
import numpy as np
from skdecide.hub.domain.gym import *
from skdecide.hub.domain.gym.gym import GymDomainStateProxy
from copy import deepcopy
import importlib
gym = importlib.import_module('gym')


class Line(gym.Env):
    """walks along a line, its state changed in place"""
    def __init__(self):
        self.action_space, self.observation_space = gym.spaces.Discrete(3), gym.spaces.Box(-100., 100., (1,))
        self.at = 0.

    def reset(self):
        self.at = 0.
        return np.array([self.at], dtype=np.float32)

    def step(self, a):
        self.at += a - 1
        return np.array([self.at], dtype=np.float32), float(a), False, {}
'''
