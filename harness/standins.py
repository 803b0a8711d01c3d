"""Stand-ins for what cannot be installed here."""
import importlib.util
import sys
import types


def commercial():
    """the commercial solver that all scheduling solvers import, whether they use it or not"""
    if 'gurobi' not in sys.modules and importlib.util.find_spec('gurobi') is None:
        m = types.ModuleType('gurobi')

        class Absent:
            def __init__(self, *a, **k):
                raise NotImplementedError('a stand-in')
        m.Model = m.LinExpr = m.Var = Absent
        m.GRB = types.SimpleNamespace(BINARY='B', INTEGER='I', CONTINUOUS='C', MINIMIZE=1, MAXIMIZE=-1, Param=types.SimpleNamespace())
        m.quicksum = sum
        sys.modules['gurobi'] = m
