"""Solvers of classic problems (knapsack, colouring, facility location, travelling salesman): the real solvers over generated
problems, reused solvers, budgets of simulated time, early stops of the back ends and failing evaluations."""
import contextlib
import io
import itertools
import os
import random
import sys
import warnings

from harness import exact
from harness import moves as M
from harness.backends import State, install
from harness.common import Harness, Outcome
from harness.local import Base, Boom, G
from harness.moves import B, im
from harness.standins import commercial

STRATEGIES = ['largest_first', 'random_sequential', 'smallest_last', 'independent_set', 'connected_sequential_dfs',
              'connected_sequential_bfs', 'connected_sequential', 'saturation_largest_first', 'dsatur', 'best']
SOLVERS = {'knapsack': ['best', 'dummy', 'dp', 'dp', 'dp_np', 'cbc', 'mip', 'ortools', 'lns'],
           'coloring': ['greedy', 'greedy', 'mip', 'lns'], 'facility': ['greedy', 'greedy', 'cbc', 'mip', 'lns'], 'tsp': ['ortools', 'lp', 'lp'], 'vrp': ['greedy', 'ortools', 'ortools']}
EXACT = {'knapsack': ['dp', 'dp_np', 'cbc', 'mip', 'ortools'], 'coloring': ['mip'], 'facility': ['cbc', 'mip'], 'tsp': ['lp', 'ortools'], 'vrp': ['ortools']}


def gen_instance(rng, kind):
    if kind == 'many':          # graphs on which the strategies differ
        n, p = rng.randint(10, 16), rng.choice([.3, .4, .5])
        return {**gen_instance(rng, 'coloring'), 'n': n, 'edges': [[i, j] for i in range(n) for j in range(i + 1, n) if rng.random() < p],
                'names': list(range(n)), 'order': rng.choice([list(range(n)), rng.sample(range(n), n)])}
    inst = M.gen_instance(rng, kind)
    if kind == 'tsp' and not 3 <= inst['n'] <= 6 or kind == 'vrp' and inst['n'] > 5:
        return gen_instance(rng, kind)
    if kind == 'vrp':       # nothing is delivered where vehicles start and end
        inst['ends'] = [[a, a] for a, _ in inst['ends']]
        for a, _ in inst['ends']:
            inst['customers'][a][0] = 0
    n = inst['n']
    if kind == 'knapsack':
        inst['again'] = rng.random() < .1
        inst['index'] = rng.choice([list(range(n)), list(range(1, n + 1)), rng.sample(range(n), n), rng.sample(range(3 * n), n)])
        inst['mobj'] = rng.random() < .1
    if kind == 'coloring':
        if rng.random() < .2:
            inst['edges'] = [[i, j] for i in range(n) for j in range(i + 1, n) if rng.random() < .8]
        inst['names'] = rng.choice([list(range(n)), list(range(1, n + 1)), [(i // 2, i) for i in range(n)], [5 * i + 2 for i in range(n)]])
        inst['order'] = rng.sample(range(n), n)
    if kind == 'tsp':
        inst['numba'] = False
        if rng.random() < .3:       # distances which all round to the same
            inst['points'] = [[x / 10, y / 10] for x, y in inst['points']]
    return inst


def build(kind, inst):
    if kind == 'knapsack':
        m = im(B + 'knapsack.knapsack_model')
        return (m.KnapsackModel_Mobj if inst['mobj'] else m.KnapsackModel)(
            list_items=[m.Item(i, v, w) for i, (v, w) in zip(inst['index'], inst['items'])], max_capacity=inst['cap'],
            force_recompute_values=inst['again'])
    if kind == 'coloring':
        nm = inst['names']
        g = im(B + 'generic_tools.graph_api').Graph([(nm[i], {}) for i in inst['order']], [(nm[a], nm[b], {}) for a, b in inst['edges']])
        return im(B + 'coloring.coloring_model').ColoringProblem(g)
    return M.build(kind, inst)


def total(kind, inst, x):
    """the aggregated fitness"""
    o, ok = M.worth('knapsack_mobj' if inst.get('mobj') else kind, inst, x)
    if kind == 'knapsack':
        return o['value'] - 100000 * o['weight_violation']
    if kind == 'coloring':
        return -o['nb_colors'] - 100 * o['nb_violations']
    if kind == 'facility':
        return -o['cost'] - o['setup_cost'] - 10000 * o['capacity_constraint_violation']
    return o['length'] if kind == 'tsp' else -o['length'] - 100000 * o['capacity_violation']


def routes(inst):
    free = [i for i in range(inst['n']) if all(i not in e for e in inst['ends'])]
    for p in itertools.permutations(free):
        for cuts in itertools.combinations_with_replacement(range(len(p) + 1), inst['v'] - 1):
            b = [0, *cuts, len(p)]
            yield [list(p[b[v]:b[v + 1]]) for v in range(inst['v'])]


def optimum(kind, inst):
    """fitness of the best feasible content, None if there is none"""
    n = inst['n']
    best = min if kind == 'tsp' else max
    if kind == 'knapsack':
        xs = itertools.product([0, 1], repeat=n)
    elif kind == 'facility':
        xs = itertools.product(range(inst['f']), repeat=n)
    elif kind == 'vrp':
        xs = routes(inst)
    elif kind == 'tsp':
        xs = itertools.permutations([i for i in range(n) if i not in inst['ends']])
    else:
        near = [[b for e in inst['edges'] if i in e for b in e if b < i] for i in range(n)]

        def colours(x, k):
            i = len(x)
            return i == n or any(colours(x + [c], k) for c in range(min(k, max(x, default=-1) + 2)) if all(x[b] != c for b in near[i]))
        return next(-k for k in range(1, n + 1) if colours([], k))
    return best((total(kind, inst, x) for x in xs if M.worth(kind, inst, x)[1]), default=None)


def stuck(inst, x):
    """every facility given too much has a customer for whom no other has room"""
    left = [f[1] - sum(c[0] for c, g in zip(inst['customers'], x) if g == k) for k, f in enumerate(inst['facilities'])]
    return all(any(g == k and all(left[h] < c[0] for h in range(inst['f']) if h != k) for c, g in zip(inst['customers'], x))
               for k in range(inst['f']) if left[k] < 0)


class Clock:
    def __init__(self, run, steps):
        self.run, self.steps, self.now, self.k = run, steps, 1000., 0

    def time(self):
        self.now += self.steps[self.k % len(self.steps)]
        self.k += 1
        self.run.now = self.now - 1000.
        return self.now


@contextlib.contextmanager
def silence():
    """external libraries write to the descriptor itself"""
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 1)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


class ClassicRun(Base):
    early = None

    def go(self):
        import numpy as np
        sp = self.spec
        random.seed(sp['seed'])
        np.random.seed(sp['seed'] & 0x7fffffff)
        commercial()
        install()
        exact.install()
        self.rng = random.Random(sp['seed'])
        State.run = self
        try:
            with silence():
                self.history()
        except Boom:
            self.fail('raises', 'an injected failure came up where none was armed')
        except Exception as e:
            self.crash('history', e)

    def spy(self, problem):
        evaluate = problem.evaluate

        def counted(v):
            self.event('evaluate')
            return evaluate(v)
        problem.evaluate = counted
        return problem

    def history(self):
        sp = self.spec
        kind = self.kind = sp['kind']
        problems, solvers = {}, {}
        for k, op in enumerate(sp['ops']):
            self.n = k
            inst = self.inst = sp['insts'][op['on']]
            if op['on'] not in problems:
                problems[op['on']] = self.spy(build(kind, inst))
            problem = problems[op['on']]
            # neighbourhoods are searched with the same program
            key = (op['on'], 'mip' if op['how'] == 'lns' else op['how'], str(op.get('prune')))
            if not op['again'] or key not in solvers:
                solvers[key] = self.create(problem, op)
            elif op['again']:
                self.stats['solvers used again'] += 1
            self.stats[f'{kind} by {op["how"]}'] += 1
            self.arm, self.early = op['boom'], op['early']
            try:
                self.gave_up = False
                store = self.solve(solvers[key], problem, op)
                if self.gave_up:
                    solvers.pop(key)
                    self.stats['left out: the stand-in of the integer programming library failed'] += 1
                    continue
            except Boom:
                self.faults['failing evaluation'] += 1
                solvers.pop(key)
                self.event('failed')
                continue
            finally:
                self.arm, self.early = None, None
            self.judge(store, problem, op)
            if self.v:
                return

    # -- the solvers
    def create(self, problem, op):
        kind, how = self.kind, op['how']
        params = im(G + 'do_problem').get_default_objective_setup(problem)
        CBC = im(G + 'lp_tools').MilpSolverName.CBC
        if kind == 'knapsack':
            g, lp = im(B + 'knapsack.solvers.greedy_solvers'), im(B + 'knapsack.solvers.lp_solvers')
            if how in ('mip', 'lns'):
                s = lp.LPKnapsack(problem, CBC, params_objective_function=params)
            else:
                cls = {'best': g.GreedyBest, 'dummy': g.GreedyDummy, 'cbc': lp.LPKnapsackCBC, 'ortools': lp.KnapsackORTools,
                       'dp': im(B + 'knapsack.solvers.dyn_prog_knapsack').KnapsackDynProg}[how.split('_')[0]]
                s = cls(problem, params_objective_function=params)
        elif kind == 'coloring':
            g, lp = im(B + 'coloring.solvers.greedy_coloring'), im(B + 'coloring.solvers.coloring_lp_solvers')
            if how == 'greedy':
                return g.GreedyColoring(problem, params)
            s = lp.ColoringLP_MIP(problem, params_objective_function=params, milp_solver_name=CBC)
            s.init_model(greedy_start=op['start'], use_cliques=op['cliques'])
            return s
        elif kind == 'facility':
            lp = im(B + 'facility.solvers.facility_lp_solver')
            if how == 'greedy':
                return im(B + 'facility.solvers.greedy_solvers').GreedySolverFacility(problem, params)
            s = lp.LP_Facility_Solver_CBC(problem, params) if how == 'cbc' else lp.LP_Facility_Solver_PyMip(problem, CBC, params)
            s.init_model(use_matrix_indicator_heuristic=op['prune'] is not None, **({} if op['prune'] is None else
                         {'n_cheapest': op['prune'][0], 'n_shortest': op['prune'][1]}))
            return s
        elif kind == 'vrp':
            if how == 'greedy':
                return im(B + 'vrp.solver.greedy_vrp').GreedyVRPSolver(problem, params)
            return im(B + 'vrp.solver.solver_ortools').VrpORToolsSolver(problem, params)
        else:
            if how == 'ortools':
                s = im(B + 'tsp.solver.solver_ortools').TSP_ORtools(problem, params)
                s.init_model()
                return s
            real, os.makedirs = os.makedirs, lambda *a, **k: None
            try:
                lp = im(B + 'tsp.solver.solver_lp_iterative')
            finally:
                os.makedirs = real
            s = lp.LP_TSP_Iterative(problem, graph_builder=[lp.build_graph_complete, lp.build_graph_pruned][op['pruned']], params_objective_function=params)
            s.init_model(method=lp.MILPSolver.CBC)
            return s
        if how in ('cbc', 'mip', 'ortools', 'lns'):
            s.init_model(**({'warm_start': dict(zip(self.inst['index'], op['warm']))} if op['warm'] and how != 'ortools' else {}))
        return s

    def solve(self, s, problem, op):
        kind, how = self.kind, op['how']
        milp = im(G + 'lp_tools').ParametersMilp.default()
        milp.retrieve_all_solution = op['all']
        if kind == 'knapsack':
            if how.startswith('dp'):
                dp = im(B + 'knapsack.solvers.dyn_prog_knapsack')
                real = dp.time
                kw = {'greedy_start': op['start']}
                if op['budget'] is not None:
                    kw['max_time_seconds'] = op['budget']
                if op['most'] is not None:
                    kw['max_items'] = op['most']
                dp.time = Clock(self, op['clock'])
                try:
                    return (s.solve_np if how == 'dp_np' else s.solve)(**kw)
                finally:
                    dp.time = real
            if how == 'lns':
                k = im(B + 'knapsack.solvers.knapsack_lns_solver')
                return self.neighbourhoods(s, problem, op, milp, k.InitialKnapsackSolution, k.InitialKnapsackMethod,
                                           k.ConstraintHandlerKnapsack(problem, op['fix']))
            return s.solve(milp) if how == 'mip' else s.solve()
        if kind == 'coloring':
            if how == 'greedy':
                return s.solve(strategy=im(B + 'coloring.solvers.greedy_coloring').NXGreedyColoringMethod[op['strategy']])
            if how == 'mip':
                return s.solve(milp)
            col = im(B + 'coloring.solvers.coloring_lp_lns_solvers')
            return self.neighbourhoods(s, problem, op, milp, col.InitialColoring, col.InitialColoringMethod,
                                       col.ConstraintHandlerFixColorsPyMip(problem, op['fix']))
        if kind == 'facility':
            if how == 'greedy':
                return s.solve()
            if how == 'lns':
                fac = im(B + 'facility.solvers.facility_lp_lns_solver')
                return self.neighbourhoods(s, problem, op, milp, fac.InitialFacilitySolution, fac.InitialFacilityMethod,
                                           fac.ConstraintHandlerFacility(problem, op['fix'], skip_first_iter=op['cliques']))
            return s.solve(parameters_milp=milp) if how == 'mip' else s.solve()
        return s.solve() if how == 'ortools' or kind == 'vrp' else s.solve(plot=False, nb_iteration_max=20)

    def neighbourhoods(self, s, problem, op, milp, Initial, Method, handler):
        params = im(G + 'do_problem').get_default_objective_setup(problem)
        init = Initial(problem, Method.GREEDY if op['start'] else Method.DUMMY, params)
        return im(G + 'lns_mip').LNS_MILP(problem, s, init, handler, params_objective_function=params).solve_lns(milp, nb_iteration_lns=op['rounds'])

    # -- what they return
    def judge(self, store, problem, op):
        kind, inst, how = self.kind, self.inst, op['how']
        k2 = 'knapsack_mobj' if inst.get('mobj') else kind
        if kind == 'facility' and how == 'cbc':
            sol, details = store
            pairs, best = [(sol, None)], sol
            want = M.worth(kind, inst, M.read(kind, sol))[0]
            if any(not M.same(w, details[k]) for k, w in want.items()):
                return self.fail('wrong objectives', f'{how}: {M.read(kind, sol)} is announced with {details}, it is worth {want}')
        else:
            pairs = list(store.list_solution_fits)
            best = store.get_best_solution() if pairs else None
        can = optimum(kind, inst)
        if not pairs:
            if can is not None and not (op.get('prune') or op['early']):
                self.fail('no solution', f'{how} returns none of {inst}')
            return
        self.stats['solutions'] += len(pairs)
        for s, f in pairs:
            x = M.read(kind, s)
            self.event('solution', x)
            if not M.valid(k2, inst, x) or kind == 'coloring' and not set(x) <= set(range(inst['n'])) or \
                    kind == 'facility' and not set(x) <= set(range(inst['f'])):
                return self.fail('invalid solution', f'{how}: {x}')
            want, ok = M.worth(k2, inst, x)
            if inst.get('mobj') and f is not None:
                f = None
            if f is not None and not M.same(total(kind, inst, x), f):
                return self.fail('wrong fitness', f'{how}: {x} is stored with {f}, it is worth {total(kind, inst, x)}')
            if kind == 'knapsack':
                w = sum(i[1] for i, t in zip(inst['items'], x) if t)
                if (s.value, s.weight) != (want['value'], w) and s.value is not None and \
                        not (M.same(want['value'], s.value) and M.same(w, s.weight)):
                    return self.fail('wrong objectives', f'{how}: {x} is announced with value {s.value} and weight {s.weight}, they are {want["value"]}, {w}')
            if kind == 'coloring' and s.nb_color is not None and s.nb_color != want['nb_colors']:
                return self.fail('wrong objectives', f'{how}: {x} is announced with {s.nb_color} colours')
            got = problem.evaluate(s)
            if any(not M.same(w, got[k]) for k, w in want.items()):
                return self.fail('wrong objectives', f'{how}: {x} evaluates to {got}, it is worth {want}')
            given = how == 'lns' and s is pairs[0][0] or how == 'cbc' and (op['early'] == 'nothing' or op.get('prune'))
            if not ok and not (kind == 'facility' and given) and \
                    (stuck(inst, x) is False if kind == 'facility' and how == 'greedy' else can is not None):
                return self.fail('infeasible solution', f'{how}: {x} of {inst}: {want}')
        x = M.read(kind, best)
        if not inst.get('mobj'):
            top = (min if kind == 'tsp' else max)(total(kind, inst, M.read(kind, s)) for s, _ in pairs)
            if not M.same(top, total(kind, inst, x)):
                return self.fail('not the best', f'{how}: {x} is returned as the best, worth {total(kind, inst, x)} when {top} was found')
        value = total(kind, inst, x)
        ok = M.worth(kind, inst, x)[1]
        complete = not op['early'] and op.get('prune') is None
        if how.startswith('dp'):
            # the budget may end the search; items beyond the number asked for are left
            complete = complete and (op['budget'] is None or op['budget'] >= 1000) and (op['most'] is None or op['most'] > inst['n'])
        if how in EXACT[kind] and complete and can is not None:
            self.stats['optima'] += 1
            if not M.same(can, value):
                return self.fail('not optimal', f'{how}: {x} is worth {value}, {can} is possible in {inst}')
        elif can is not None and ok and (value < can - 1e-6 if kind == 'tsp' else value > can + 1e-6):
            return self.fail('too good', f'{how}: {x} {value} of {can}')
        if kind == 'knapsack' and how == 'best' and ok:
            w = sum(i[1] for i, t in zip(inst['items'], x) if t)
            for it, t in zip(inst['items'], x):
                if not t and it[1] + w <= inst['cap'] and it[0] > 0:
                    return self.fail('room left', f'{how}: {x} leaves {it} though there is room for it in {inst}')
        if kind == 'coloring' and how in ('greedy', 'lns'):
            deg = max((sum(i in e for e in inst['edges']) for i in range(inst['n'])), default=0)
            if how == 'greedy':
                if -value > deg + 1:
                    return self.fail('too many colours', f'{op["strategy"]}: {x} of {inst}')
                if op['strategy'] == 'best':
                    import networkx as nx
                    few = min(len(set(nx.greedy_color(problem.graph.to_networkx(), strategy=t).values())) for t in STRATEGIES[:8] if t != 'random_sequential')
                    if -value > few:
                        return self.fail('not the best strategy', f'{x} of {inst}: another takes {few} colours')
                seen = []
                [seen.append(c) for c in x if c not in seen]
                if seen != list(range(len(seen))):
                    return self.fail('colours not numbered', f'{op["strategy"]}: {x}')
        if how == 'lns' and op['rounds'] and not inst.get('mobj'):
            if op['fix'] == 0 and complete and can is not None and not M.same(value, can):
                return self.fail('not optimal', f'{how}: nothing is fixed, {x} is worth {value}, {can} is possible in {inst}')


class Classic(Harness):
    runs = {'quick': 4000, 'thorough': 60000}
    rule = ('every run solves one or two generated problems of one kind several times with several solvers, some used again; the seed decides '
            'the problems, parameters, the clock, early stops of the back ends, failing evaluations and every random choice')
    real = ['greedy, dynamic programming and exact solvers of knapsack, colouring, facility, travelling salesman and vehicle routing problems; '
            'large neighbourhood searches with integer programs; the problems and result storages', 'the modelling layer of python-mip']
    stub = ['the clock of dynamic programming',
            'the solver behind python-mip: HiGHS, the run decides which feasible solutions it reports and when it stops',
            'OR-Tools (cannot be loaded beside python-mip): linear models as above, knapsacks and routes by enumeration',
            'random generators seeded; failures injected into evaluate']
    assumptions = ['problems small enough to enumerate; weights, values and demands are integers']

    def gen(self, rng, tier):
        kind = rng.choice(['knapsack', 'knapsack', 'knapsack', 'coloring', 'coloring', 'facility', 'facility', 'tsp', 'tsp', 'vrp'])
        many = kind == 'coloring' and rng.random() < .4
        insts = [gen_instance(rng, 'many' if many else kind) for _ in range(4 if many else rng.choice([1, 1, 2]))]
        ops = []
        for k in range(4 if many else rng.choice([1, 2, 3, 4])):
            on = k if many else rng.randrange(len(insts))
            inst = insts[on]
            how = 'greedy' if many else rng.choice(SOLVERS[kind])
            op = {'on': on, 'how': how, 'again': rng.random() < .4, 'boom': rng.choice([0, 1, 2]) if rng.random() < .12 else None,
                  'early': rng.choice(['first', 'first', 'nothing']) if rng.random() < .15 else None, 'all': rng.random() < .7, 'start': rng.random() < .6}
            if kind == 'knapsack':
                op.update(warm=[rng.randint(0, 1) for _ in range(inst['n'])] if rng.random() < .3 else None,
                          budget=rng.choice([None, None, 0, 1, 3, 5000]), most=rng.choice([None, None, None, 1, 2, inst['n'], inst['n'] + 1, 100]),
                          clock=[rng.choice([0, .1, 1, 2]) for _ in range(5)])
            if kind == 'coloring':
                op.update(strategy='best' if many and rng.random() < .8 else rng.choice(STRATEGIES))
            if kind == 'facility':
                op['prune'] = [rng.choice([0, 1, 2]), rng.choice([1, 2, 10])] if rng.random() < .3 else None
            if kind in ('coloring', 'facility', 'knapsack'):
                op.update(cliques=rng.random() < .4, fix=rng.choice([0, .3, .6, .9]), rounds=rng.choice([0, 1, 2, 4]))
            if kind == 'tsp':
                op.update(pruned=rng.random() < .4)
            ops.append(op)
        return {'kind': kind, 'insts': insts, 'ops': ops, 'seed': rng.randrange(1 << 30)}

    def execute(self, spec, record=False):
        r = ClassicRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, r.stats['solutions'] > 0, None, r.log)

    def shrink(self, spec):
        for k in range(len(spec['ops'])):
            if len(spec['ops']) > 1:
                yield {**spec, 'ops': spec['ops'][:k] + spec['ops'][k + 1:]}
        for k, op in enumerate(spec['ops']):
            for f, v in (('boom', None), ('early', None), ('again', False), ('budget', None), ('most', None), ('warm', None)):
                if op.get(f) not in (v, None) and f in op:
                    yield {**spec, 'ops': spec['ops'][:k] + [{**op, f: v}] + spec['ops'][k + 1:]}


CHECKS = {'C36': Classic()}
