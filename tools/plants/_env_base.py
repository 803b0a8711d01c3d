DY = 'skdecide/builders/domain/dynamics.py'
MEM = 'skdecide/builders/domain/memory.py'
ENV = '''
import sys
from skdecide import *
from skdecide.builders.domain import *


def expect(what, got, exp):
    if got != exp:
        print(what, got, 'expected', exp)
        sys.exit(1)
'''
