DO = 'skdecide/builders/discrete_optimization/'
MOVES = '''
import contextlib, io, sys
import numpy as np


def expect(what, got, exp):
    if got != exp:
        print(what, got, 'expected', exp)
        sys.exit(1)

'''
