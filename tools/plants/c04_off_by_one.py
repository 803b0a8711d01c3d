FIN = '''
def finish(code):
    import os, multiprocess
    for c in multiprocess.active_children():
        c.kill()
    os._exit(code)

'''
ID = 'c04-register-overrun'
PROP = 'C04'
EDITS = [('skdecide/domains.py', '''                    k = type_counters[arg_name]
                    if (k >= end):
''', '''                    k = type_counters[arg_name]
                    if (k > end):
''')]
NEEDS = 'a request with exactly one argument more than there are registers for its type'
BREAKS = 'the extra argument is written into the first register of the next type (or of the next domain) and the ' \
         'request is executed with damaged arguments instead of being refused'
SHM = '''
import ctypes, os, sys
from skdecide.domains import ShmParallelDomain
from pathos.helpers import mp


class A:
    def __init__(self, v): self.v = v


class B:
    def __init__(self, v): self.v = v


class Proxy:
    def __init__(self, reg): self.reg = reg
    def copy(self): return Proxy(self.reg)
    def register(self): return self.reg
    def initialize(self, t):
        if t is A:
            return [mp.Value('d', 0.0, lock=True) for _ in range(2)]
        return mp.Value('d', 0.0, lock=True)
    def encode(self, v, cell):
        if type(v) is A:
            cell[0].value, cell[1].value = v.v, -v.v
        else:
            cell.value = v.v
    def decode(self, t, cell):
        if t is A:
            assert cell[0].value == -cell[1].value
            return A(cell[0].value)
        return B(cell.value)
'''
DEMO = SHM + FIN + '''

class Dom:
    def total(self, *a):
        return B(100 + sum(x.v for x in a))


with ShmParallelDomain(Dom, Proxy([(A, 2), (B, 2)]), nb_domains=2) as d:
    i = d.total(B(1), B(2))
    first = d.get_result(i).v
    j = d.total(A(1), A(2), A(3))
    second = None
    if j is not None:
        second = d.get_result(j)
        second = second and second.v
    third = d.get_result(d.total(A(5), A(6))).v
    print(first, j, second, third)
sys.stdout.flush()
finish(0 if (first, second, third) == (103, None, 111) else 1)
'''
