"""Stand-ins for OR-Tools, whose libraries cannot live in one process with those of the installed integer programming package:
linear models are solved as that package's are, knapsacks and routes by enumeration; the run decides early stops."""
import itertools
import sys
import types


class State:
    run = None


def module(name, **content):
    m = types.ModuleType(name)
    m.__dict__.update(content)
    m.__path__ = []
    sys.modules[name] = m
    if '.' in name:
        parent, child = name.rsplit('.', 1)
        setattr(sys.modules[parent], child, m)
    return m


def install():
    if getattr(sys.modules.get('ortools'), 'stand_in', False):
        return
    assert 'ortools.linear_solver' not in sys.modules
    import mip
    mip.Var.solution_value = lambda v: v.x if v.x is not None else 0.
    module('ortools', stand_in=True)
    module('ortools.linear_solver')
    module('ortools.linear_solver.pywraplp', Solver=Linear)
    module('ortools.algorithms')
    module('ortools.algorithms.pywrapknapsack_solver', KnapsackSolver=Knapsack)
    module('ortools.constraint_solver')
    module('ortools.constraint_solver.routing_enums_pb2',
           FirstSolutionStrategy=types.SimpleNamespace(SAVINGS=1, PATH_CHEAPEST_ARC=2, PATH_MOST_CONSTRAINED_ARC=3),
           LocalSearchMetaheuristic=types.SimpleNamespace(GUIDED_LOCAL_SEARCH=1, SIMULATED_ANNEALING=2))
    module('ortools.constraint_solver.pywrapcp', RoutingIndexManager=Manager, RoutingModel=Routing,
           DefaultRoutingSearchParameters=lambda: types.SimpleNamespace(time_limit=types.SimpleNamespace(seconds=0)))


class Linear:
    CBC_MIXED_INTEGER_PROGRAMMING = 3

    def __init__(self, name, kind):
        import mip
        self.mip, self.m = mip, mip.Model(name, solver_name=mip.CBC)

    def BoolVar(self, name):
        return self.m.add_var(name, var_type='B')

    def Sum(self, terms):
        return self.mip.xsum(terms)

    def Add(self, c):
        return self.m.add_constr(c)

    def Minimize(self, e):
        self.m.objective = self.mip.minimize(e)

    def Maximize(self, e):
        self.m.objective = self.mip.maximize(e)

    def SetHint(self, *a):
        pass

    def SetTimeLimit(self, ms):
        pass

    def Objective(self):
        return types.SimpleNamespace(Value=lambda: self.m.objective_value)

    def Solve(self):
        s = self.m.optimize().name
        return {'OPTIMAL': 0, 'FEASIBLE': 1, 'INFEASIBLE': 2, 'INT_INFEASIBLE': 2, 'UNBOUNDED': 3}.get(s, 6)


class Knapsack:
    KNAPSACK_MULTIDIMENSION_BRANCH_AND_BOUND_SOLVER = 5

    def __init__(self, kind, name):
        pass

    def Init(self, values, weights, capacities):
        self.given = [int(v) for v in values], [[int(w) for w in ws] for ws in weights], [int(c) for c in capacities]

    def Solve(self):
        State.run.event('knapsack')
        v, ws, cs = self.given
        ok = [x for x in itertools.product([0, 1], repeat=len(v)) if all(sum(a * b for a, b in zip(w, x)) <= c for w, c in zip(ws, cs))]
        self.x = max(ok, key=lambda x: sum(a * b for a, b in zip(v, x)))
        return sum(a * b for a, b in zip(v, self.x))

    def BestSolutionContains(self, i):
        return bool(self.x[i])


class Manager:
    """indices are not nodes: every vehicle has its own start and end"""
    def __init__(self, n, vehicles, starts, ends):
        self.starts, self.ends, self.v = list(starts), list(ends), vehicles
        self.free = [i for i in range(n) if i not in self.starts + self.ends]
        self.nodes = self.starts + self.free[::-1] + self.ends

    def IndexToNode(self, i):
        return self.nodes[i]

    def NodeToIndex(self, n):
        return self.nodes.index(n)


class Routing:
    def __init__(self, manager):
        self.m, self.calls, self.dims = manager, [], []

    def RegisterTransitCallback(self, f):
        self.calls.append(f)
        return len(self.calls) - 1

    RegisterUnaryTransitCallback = RegisterTransitCallback

    def SetArcCostEvaluatorOfAllVehicles(self, k):
        self.cost = self.calls[k]

    def AddDimensionWithVehicleCapacity(self, k, slack, caps, zero, name):
        self.dims.append((self.calls[k], list(caps)))

    def Start(self, v):
        return v

    def End(self, v):
        return len(self.m.nodes) - self.m.v + v

    def IsEnd(self, i):
        return i >= len(self.m.nodes) - self.m.v

    def NextVar(self, i):
        return i

    def GetArcCostForVehicle(self, i, j, v):
        return int(self.cost(i, j))

    def SolveWithParameters(self, params):
        run = State.run
        run.event('routes')
        V, idx = self.m.v, list(range(self.m.v, len(self.m.nodes) - self.m.v))
        best, seen = None, 0
        for p in itertools.permutations(idx):
            for cuts in itertools.combinations_with_replacement(range(len(p) + 1), V - 1):
                b = [0, *cuts, len(p)]
                routes = [[self.Start(v), *p[b[v]:b[v + 1]], self.End(v)] for v in range(V)]
                if any(sum(f(i) for i in r[:-1]) > caps[v] for f, caps in self.dims for v, r in enumerate(routes)):
                    continue
                cost = sum(int(self.cost(i, j)) for r in routes if len(r) > 2 or V == 1 for i, j in zip(r, r[1:]))
                seen += 1
                if best is None or cost < best[0]:
                    best = cost, routes
                if run.early and seen == 1:
                    run.faults['back ends stopped at a first solution'] += 1
                    break
            if run.early and seen:
                break
        if best is None:
            return None
        nxt = {i: j for r in best[1] for i, j in zip(r, r[1:])}
        return types.SimpleNamespace(Value=lambda i: nxt[i], ObjectiveValue=lambda: best[0])
