"""Solutions of discrete optimization problems: the real problems, solutions and moves over generated histories of moves,
undone moves, copies, assignments, other problems and failing evaluations, compared with what the content is worth."""
import contextlib
import io
import math
import random
import warnings

from harness import rcpsp_ref as ref
from harness.common import Harness, Outcome, drop_each
from harness.local import Base, Boom, G

B = 'skdecide.builders.discrete_optimization.'
KINDS = ['knapsack', 'knapsack_mobj', 'tsp', 'coloring', 'facility', 'vrp', 'single', 'multi', 'calendar']
RCPSP = ('single', 'multi', 'calendar')


def im(m):
    from importlib import import_module
    return import_module(m)


# ------------------------------------------------------------------------------------------------ instances
def gen_instance(rng, kind):
    pt = lambda: [rng.randint(0, 6), rng.randint(0, 6)]
    if kind.startswith('knapsack'):
        n = rng.choice([1, 2, 3, 5, 7])
        return {'n': n, 'items': [[rng.choice([0, 1, 2, 3, 5, 8]), rng.choice([0, 1, 1, 2, 3, 5])] for _ in range(n)],
                'cap': rng.choice([0, 3, 5, 9]), 'again': rng.random() < .15}
    if kind == 'tsp':
        n = rng.choice([2, 3, 4, 6, 8])
        a = rng.randrange(n)
        b = rng.choice([a, a, rng.randrange(n)])
        if n == 2:
            b = a
        return {'n': n, 'points': [pt() for _ in range(n)], 'ends': [a, b], 'numba': rng.random() < .3}
    if kind == 'coloring':
        n = rng.choice([1, 2, 4, 6])
        return {'n': n, 'edges': [[i, j] for i in range(n) for j in range(i + 1, n) if rng.random() < .4]}
    if kind == 'facility':
        n, f = rng.choice([1, 3, 5]), rng.choice([1, 2, 3])
        return {'n': n, 'f': f, 'facilities': [[rng.randint(0, 9), rng.choice([1, 3, 6]), pt()] for _ in range(f)],
                'customers': [[rng.choice([1, 2, 3]), pt()] for _ in range(n)]}
    if kind == 'vrp':
        n, v = rng.choice([2, 3, 5, 7]), rng.choice([1, 2, 3])
        ends = [[rng.choice([0, 0, n - 1]), rng.choice([0, 0, n - 1])] for _ in range(v)]
        return {'n': n, 'v': v, 'customers': [[rng.choice([0, 1, 2, 3]), pt()] for _ in range(n)],
                'cap': [rng.choice([2, 4, 8, 30]) for _ in range(v)], 'ends': ends}
    return ref.gen_instance(rng, kind)


def vary(rng, kind, inst):
    """another problem whose solutions have the same shape"""
    if kind in RCPSP:
        return ref.vary(rng, inst)
    for _ in range(60):
        new = gen_instance(rng, kind)
        if all(new.get(k) == inst.get(k) for k in ('n', 'f', 'v')):
            if kind in ('tsp', 'vrp'):
                new['ends'] = inst['ends']
            return new
    return inst


def content(rng, kind, inst):
    n = inst['n']
    if kind.startswith('knapsack'):
        return [rng.randint(0, 1) for _ in range(n)]
    if kind == 'coloring':
        return [rng.randrange(n) for _ in range(n)]
    if kind == 'facility':
        return [rng.randrange(inst['f']) for _ in range(n)]
    if kind == 'vrp':
        rest = [i for i in range(n) if all(i not in e for e in inst['ends'])]
        rng.shuffle(rest)
        paths = [[] for _ in range(inst['v'])]
        for c in rest:
            rng.choice(paths).append(c)
        return paths
    if kind == 'tsp':
        rest = [i for i in range(n) if i not in inst['ends']]
        rng.shuffle(rest)
        return rest
    perm = list(range(n))
    rng.shuffle(perm)
    return [perm, [int(rng.choice(sorted(inst['modes'][str(t)]))) for t in range(2, n + 2)]]


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def worth(kind, inst, x):
    """objectives of the content x (None: not specified), and whether it is feasible"""
    n = inst['n']
    if kind.startswith('knapsack'):
        w = sum(it[1] for it, t in zip(inst['items'], x) if t)
        out = {'value': sum(it[0] for it, t in zip(inst['items'], x) if t), 'weight_violation': max(0, w - inst['cap'])}
        if kind == 'knapsack_mobj':
            out.update(weight=w, heaviest_item=max([it[1] for it, t in zip(inst['items'], x) if t], default=0))
        return out, w <= inst['cap']
    if kind == 'tsp':
        return {'length': sum(edges(inst, x))}, True
    if kind == 'coloring':
        bad = sum(x[a] == x[b] for a, b in inst['edges'])
        return {'nb_colors': len(set(x)), 'nb_violations': bad}, bad == 0
    if kind == 'facility':
        used = {f: sum(c[0] for c, g in zip(inst['customers'], x) if g == f) for f in set(x)}
        over = sum(max(0, u - inst['facilities'][f][1]) for f, u in used.items())
        return {'cost': sum(dist(c[1], inst['facilities'][f][2]) for c, f in zip(inst['customers'], x)),
                'setup_cost': sum(inst['facilities'][f][0] for f in used), 'capacity_constraint_violation': over}, over == 0
    if kind == 'vrp':
        ln, over = 0, 0
        for path, (a, b), cap in zip(x, inst['ends'], inst['cap']):
            p = [a] + path + [b]
            ln += sum(dist(inst['customers'][i][1], inst['customers'][j][1]) for i, j in zip(p, p[1:]))
            over += max(0, sum(inst['customers'][i][0] for i in set([a, b] + path)) - cap)
        return {'length': ln, 'capacity_violation': over}, over == 0
    o = ref.objectives(inst, *x)
    if o is None:
        return {'makespan': None, 'mean_resource_reserve': 0}, False
    return {'makespan': o[0], 'mean_resource_reserve': o[1]}, True


def edges(inst, x):
    p = [inst['ends'][0]] + list(x) + [inst['ends'][1]]
    return [dist(inst['points'][i], inst['points'][j]) for i, j in zip(p, p[1:])]


# ------------------------------------------------------------------------------------------------ real objects
def build(kind, inst):
    if kind.startswith('knapsack'):
        m = im(B + 'knapsack.knapsack_model')
        cls = m.KnapsackModel if kind == 'knapsack' else m.KnapsackModel_Mobj
        return cls(list_items=[m.Item(i, v, w) for i, (v, w) in enumerate(inst['items'])], max_capacity=inst['cap'],
                   force_recompute_values=inst['again'])
    if kind == 'tsp':
        m = im(B + 'tsp.tsp_model')
        return m.TSPModel2D([m.Point2D(*map(float, p)) for p in inst['points']], inst['n'], start_index=inst['ends'][0],
                            end_index=inst['ends'][1], use_numba=inst['numba'])
    if kind == 'coloring':
        m = im(B + 'coloring.coloring_model')
        g = im(B + 'generic_tools.graph_api').Graph([(i, {}) for i in range(inst['n'])], [(a, b, {}) for a, b in inst['edges']])
        return m.ColoringProblem(g)
    if kind == 'facility':
        m = im(B + 'facility.facility_model')
        return m.FacilityProblem2DPoints(inst['f'], inst['n'],
                                         [m.Facility(i, s, c, m.Point(*p)) for i, (s, c, p) in enumerate(inst['facilities'])],
                                         [m.Customer(i, d, m.Point(*p)) for i, (d, p) in enumerate(inst['customers'])])
    if kind == 'vrp':
        m = im(B + 'vrp.vrp_model')
        return m.VrpProblem2D(inst['v'], list(inst['cap']), inst['n'], [m.Customer2D(i, d, *p) for i, (d, p) in enumerate(inst['customers'])],
                              [e[0] for e in inst['ends']], [e[1] for e in inst['ends']])
    return ref.build(inst, inst.get('numpy', False))


def solution(kind, problem, x):
    cls = {'single': 'rcpsp.rcpsp_model:RCPSPSolution', 'multi': 'rcpsp.rcpsp_model:RCPSPSolution', 'calendar': 'rcpsp.rcpsp_model:RCPSPSolution',
           'tsp': 'tsp.tsp_model:SolutionTSP', 'coloring': 'coloring.coloring_model:ColoringSolution', 'vrp': 'vrp.vrp_model:VrpSolution',
           'facility': 'facility.facility_model:FacilitySolution'}.get(kind, 'knapsack.knapsack_model:KnapsackSolution')
    mod, name = cls.split(':')
    cls = getattr(im(B + mod), name)
    if kind in RCPSP:
        return cls(problem=problem, rcpsp_permutation=list(x[0]), rcpsp_modes=list(x[1]))
    if kind == 'vrp':
        return cls(problem=problem, list_start_index=problem.start_indexes, list_end_index=problem.end_indexes,
                   list_paths=[list(p) for p in x])
    return cls(problem=problem, **{FIELD[kind]: list(x)})


FIELD = {'knapsack': 'list_taken', 'knapsack_mobj': 'list_taken', 'tsp': 'permutation', 'coloring': 'colors',
         'facility': 'facility_for_customers', 'vrp': 'list_paths'}


def read(kind, s):
    if kind in RCPSP:
        return [[int(i) for i in s.rcpsp_permutation], [int(i) for i in s.rcpsp_modes]]
    if kind == 'vrp':
        return [list(p) for p in s.list_paths]
    return [int(i) for i in getattr(s, FIELD[kind])]


def valid(kind, inst, x):
    n = inst['n']
    if kind.startswith('knapsack'):
        return len(x) == n and set(x) <= {0, 1}
    if kind == 'tsp':
        return sorted(x) == [i for i in range(n) if i not in inst['ends']]
    if kind in RCPSP:
        return sorted(x[0]) == list(range(n)) and len(x[1]) == n and all(str(m) in inst['modes'][str(t + 2)] for t, m in enumerate(x[1]))
    return len(x) == (inst['v'] if kind == 'vrp' else n)


def mutations(kind, problem, sol):
    """the registered ones, and the same with other parameters"""
    cat = im(B + 'generic_tools.mutations.mutation_catalog')
    lst = [(c, dict(kw)) for c, kw in cat.get_available_mutations(problem, sol, verbose=False)[1]]
    if kind == 'tsp':
        t, p = im(B + 'tsp.mutation.mutation_tsp'), im(B + 'generic_tools.mutations.permutation_mutations')
        lst += [(t.Mutation2Opt, dict(nb_test=k, return_only_improvement=o)) for k in (None, 1, 3) for o in (False, True)]
        lst += [(t.Mutation2Opt, dict(test_all=True)), (t.Mutation2OptIntersection, dict(return_only_improvement=True))]
        lst += [(p.PermutationSwap, dict(nb_swap=3, attribute='permutation')), (p.TwoOptMutation, dict(attribute='permutation')),
                (p.PermutationPartialShuffleMutation, dict(proportion=.6, attribute='permutation'))]
    if kind in RCPSP:
        p, i = im(B + 'generic_tools.mutations.permutation_mutations'), im(B + 'generic_tools.mutations.mutation_integer')
        lst += [(p.PermutationPartialShuffleMutation, dict(proportion=1.)), (i.MutationIntegerSpecificArrity, dict(probability_flip=.7))]
    if kind.startswith('knapsack'):
        b = im(B + 'generic_tools.mutations.mutation_bool')
        lst += [(b.MutationBitFlip, dict(probability_flip=.5))]
    if not hasattr(problem, 'nb_items') and kind.startswith('knapsack'):
        lst = [e for e in lst if e[0].__name__ == 'MutationBitFlip']  # the others know knapsacks only
    if kind == 'tsp' and not hasattr(problem, 'node_count'):
        lst = [e for e in lst if e[0].__name__ not in ('Mutation2Opt', 'Mutation2OptIntersection', 'MutationSwapTSP')]
    lst.sort(key=lambda e: (e[0].__name__, str(sorted((k, getattr(v, '__name__', v)) for k, v in e[1].items()))))
    return [c.build(problem, sol, **kw) for c, kw in lst]


def same(want, got):
    return want is None or abs(want - got) <= 1e-7 * max(1, abs(want))


class MoveRun(Base):
    def go(self):
        import numpy as np
        sp = self.spec
        random.seed(sp['seed'])
        np.random.seed(sp['seed'])
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.history()
        except Boom:
            self.fail('raises', 'an injected failure came up where none was armed')
        except Exception as e:
            self.crash('history', e)

    def watch_evaluations(self, problem):
        evaluate, run = problem.evaluate, self

        def counted(variable):
            run.event('evaluate')
            return evaluate(variable)
        problem.evaluate = counted
        return problem

    def setup(self, k):
        """the problem number k of the run"""
        sp = self.spec
        if sp['robust'] is None:
            self.inst = sp['instances'][k]
            self.problem = self.watch_evaluations(build(sp['kind'], self.inst))
        else:
            dp = im(G + 'do_problem')
            self.inst = sp['instances'][0]
            m = dp.MethodAggregating(dp.BaseMethodAggregating[sp['robust']], percentile=75.,
                                     ponderation=[1. + i for i in range(len(sp['instances']))])
            parts = [build(sp['kind'], i) for i in sp['instances']]
            cls = im(B + 'rcpsp.rcpsp_model').Aggreg_RCPSPModel if sp['kind'] in RCPSP else dp.RobustProblem
            self.problem = self.watch_evaluations(cls(parts, m))
            self.first = parts[0]

    def worth(self, x):
        sp = self.spec
        if sp['robust'] is None:
            return worth(sp['kind'], self.inst, x)
        import numpy as np
        parts = [worth(sp['kind'], i, x) for i in sp['instances']]
        out = {}
        for k in parts[0][0]:
            v = [p[0][k] for p in parts]
            f = {'MEAN': np.mean, 'MEDIAN': np.median, 'MIN': np.min, 'MAX': np.max, 'PERCENTILE': lambda v: np.percentile(v, 75.),
                 'PONDERATION': lambda v: sum((1. + i) * a for i, a in enumerate(v))}[sp['robust']]
            out[k] = None if None in v or not all(p[1] for p in parts) else float(f(v))
        return out, parts[0][1]

    def fresh(self, x):
        sp = self.spec
        return solution(sp['kind'], self.problem if sp['robust'] is None else self.first, x)

    def remake(self):
        self.muts = mutations(self.spec['kind'], self.problem, self.cur)
        if len(self.muts) > 1 and self.spec['portfolio']:
            mm = im(B + 'generic_tools.mutations.mixed_mutation')
            cls = [mm.BasicPortfolioMutation, mm.BasicPortfolioMutationTrack][self.spec['portfolio'] - 1]
            self.muts += [cls(list(self.muts), [1. + i % 3 for i in range(len(self.muts))])]

    def told(self, x, got, what):
        """objectives somebody reported for the content x"""
        want, _ = self.worth(x)
        if not isinstance(got, dict) or not set(want) <= set(got):
            return self.fail('wrong objectives', f'{what} are {got}, expected values of {sorted(want)}')
        for k, w in want.items():
            if not same(w, got[k]):
                return self.fail('wrong objectives', f'{what} {x}: {k} is {got[k]}, it is {w}')
        if 'makespan' in want and want['makespan'] is None and self.spec['robust'] is None and got['makespan'] <= self.inst['horizon']:
            self.fail('wrong objectives', f'{what} {x}: the makespan is {got["makespan"]} though there is no schedule')

    def look(self, s, what):
        """the solution is judged as it is"""
        kind = self.spec['kind']
        x = read(kind, s)
        if not valid(kind, self.inst, x):
            return self.fail('invalid content', f'{what}: {x}')
        self.event('look', x)
        self.told(x, self.problem.evaluate(s), what)
        if self.v:
            return
        if read(kind, s) != x:
            return self.fail('invalid content', f'{what}: evaluating made {read(kind, s)} of {x}')
        want, ok = self.worth(x)
        if self.spec['kind'] in RCPSP and self.spec['robust'] is not None:
            return
        if bool(self.problem.satisfy(s)) != ok:
            return self.fail('wrong feasibility', f'{what} {x}: satisfy is {self.problem.satisfy(s)}')
        if kind == 'tsp':
            self.tour(s, what)
            if (self.problem if self.spec['robust'] is None else self.first).convert_perm_from0_to_original_perm(s.permutation_from0) != x:
                return self.fail('two contents', f'{what}: {x} is {s.permutation_from0} from 0')
        if kind in RCPSP and ok:
            start = ref.sgs(self.inst, *x)
            got = {t: d['start_time'] for t, d in s.rcpsp_schedule.items()}
            if got != start or any(d['end_time'] != start[t] + ref.mode_of(self.inst, x[1], t)['duration'] for t, d in s.rcpsp_schedule.items()):
                return self.fail('wrong schedule', f'{what} {x}: {s.rcpsp_schedule}, expected starts {start}')
        if all(v is not None for v in want.values()):
            dp = im(G + 'do_problem')
            f, fd, params = dp.build_aggreg_function_and_params_objective(self.problem)
            w = [want[o] * c for o, c in zip(params.objectives, params.weights)]
            if params.objective_handling == dp.ObjectiveHandling.MULTI_OBJ:
                if not all(same(a, b) for a, b in zip(w, f(s).vector_fitness)):
                    self.fail('wrong objectives', f'{what} {x}: fitness {f(s).vector_fitness}, expected {w}')
            else:
                w = w[0] if params.objective_handling == dp.ObjectiveHandling.SINGLE else sum(w)
                if not same(w, f(s)) or not same(w, fd(self.problem.evaluate(s))):
                    self.fail('wrong objectives', f'{what} {x}: fitness {f(s)}, expected {w}')

    def tour(self, s, what):
        """what the solution says about its edges"""
        x = read('tsp', s)
        if s.lengths is not None and self.spec['robust'] is None:
            e = edges(self.inst, x)
            if len(s.lengths) != len(e) or not all(same(a, b) for a, b in zip(e, s.lengths)):
                return self.fail('wrong lengths', f'{what} {x}: lengths {list(s.lengths)}, expected {e}')
            if s.length is not None and not same(sum(e), s.length):
                self.fail('wrong lengths', f'{what} {x}: length {s.length}, expected {sum(e)}')

    def history(self):
        sp, kind = self.spec, self.spec['kind']
        self.k = 0
        self.setup(0)
        rng = random.Random(sp['seed'])
        self.cur = self.fresh(content(rng, kind, self.inst))
        self.remake()
        done, undone, kept = [], None, []
        for self.n, o in enumerate(sp['ops']):
            op = o['op']
            self.h.update(repr(o).encode())
            if self.record:
                self.log.append(f'op {self.n}: {o}, content {read(kind, self.cur)}')
            if op == 'mutate' and self.muts:
                m = self.muts[o['i'] % len(self.muts)]
                before = read(kind, self.cur)
                self.arm = o['boom'] if o['told'] else None
                try:
                    if o['told']:
                        new, move, obj = m.mutate_and_compute_obj(self.cur)
                    else:
                        (new, move), obj = m.mutate(self.cur), None
                except Boom:
                    self.faults['evaluation raises'] += 1
                    self.arm, done, undone = None, [], None
                    self.look(self.cur, 'solution of a failed move')
                    if self.v:
                        return
                    continue
                self.arm = None
                x = read(kind, new)
                if not valid(kind, self.inst, x):
                    return self.fail('invalid content', f'{type(m).__name__} made {x} of {before}')
                if obj is not None:
                    self.told(x, obj, f'objectives told by {type(m).__name__}')
                if kind == 'tsp':
                    self.tour(new, type(m).__name__)
                self.cur = new
                done.append((move, before, x, type(m).__name__))
                undone = None
                self.stats['moves'] += 1
                self.stats['changing moves'] += x != before
                self.event(type(m).__name__, x)
            elif op == 'undo' and done:
                move, before, x, name = done.pop()
                self.cur = move.backtrack_local_move(self.cur)
                if read(kind, self.cur) != before:
                    return self.fail('not taken back', f'{name} made {x} of {before}, taking it back {read(kind, self.cur)}')
                undone = (move, before, x, name)
                self.stats['moves taken back'] += 1
                self.event('undo', before)
            elif op == 'redo' and undone:
                move, before, x, name = undone
                self.cur = move.apply_local_move(self.cur)
                if read(kind, self.cur) != x:
                    return self.fail('not applied again', f'{name} made {x} of {before}, applied again {read(kind, self.cur)}')
                done.append(undone)
                undone = None
                self.stats['moves applied again'] += 1
                self.event('redo', x)
            elif op in ('copy', 'lazy'):
                x = read(kind, self.cur)
                c = self.cur.copy() if op == 'copy' else self.cur.lazy_copy()
                if read(kind, c) != x:
                    return self.fail('wrong copy', f'{op} of {x} is {read(kind, c)}')
                if op == 'copy':
                    kept = kept[-1:] + [(self.cur, x, self.k)]
                self.cur, done, undone = c, [], None
                self.stats['copies'] += 1
            elif op == 'set':
                x = content(random.Random(o['i']), kind, self.inst)
                if kind in RCPSP:
                    for i, f in enumerate(('rcpsp_permutation', 'rcpsp_modes')):
                        if o['i'] & (1 << i):
                            setattr(self.cur, f, x[i])
                elif kind == 'tsp' and o['i'] & 1:
                    self.cur.permutation_from0 = self.problem.convert_original_perm_to_perm_from0(x) if sp['robust'] is None \
                        else self.first.convert_original_perm_to_perm_from0(x)
                else:
                    setattr(self.cur, FIELD[kind], x)
                done, undone = [], None
                self.stats['assignments'] += 1
            elif op == 'change' and sp['robust'] is None:
                self.k = o['i'] % len(sp['instances'])
                x = read(kind, self.cur)
                self.setup(self.k)
                self.cur.change_problem(self.problem)
                if read(kind, self.cur) != x:
                    return self.fail('invalid content', f'for another problem {x} became {read(kind, self.cur)}')
                self.remake()
                done, undone, kept = [], None, []
                self.stats['changes of problem'] += 1
            elif op == 'encode' and kind != 'vrp' and sp['robust'] is None:
                self.encode(random.Random(o['i']))
            elif op == 'dummy' and sp['robust'] is None:
                self.look(self.problem.get_dummy_solution(), 'dummy solution')
            elif op == 'search' and self.muts:
                self.search(o)
            if self.v:
                return
            if o['look']:
                self.look(self.cur, f'solution after {op}')
            elif o['peek']:
                self.look(self.cur.copy(), f'copy after {op}')
            if self.v:
                return
            for s, x, k in kept:
                if read(kind, s) != x:
                    return self.fail('copies share', f'after {op} the original {x} of a copy is {read(kind, s)}')
        self.n += 1
        self.look(self.cur, 'last solution')
        for s, x, k in kept:
            if not self.v:
                self.look(s, 'original of a copy')

    def encode(self, rng):
        sp, kind = self.spec, self.spec['kind']
        x = content(rng, kind, self.inst)
        if kind in RCPSP:
            name = 'rcpsp_permutation'
            vec, want = list(x[0]), [x[0], [1] * self.inst['n']]
            if kind == 'multi':
                self.problem.set_fixed_modes(list(x[1]))
                self.problem.set_fixed_permutation(list(x[0]))
                want = [x[0], x[1]]
                if rng.random() < .5:
                    name = 'rcpsp_modes'
                    top = max(len(m) for m in self.inst['modes'].values())
                    vec = [rng.randrange(top) for _ in range(self.inst['n'])]
                    want = [x[0], [m + 1 if str(m + 1) in self.inst['modes'][str(t + 2)] else 1 for t, m in enumerate(vec)]]
        else:
            name, vec, want = FIELD[kind], list(x), x
            if kind == 'tsp' and rng.random() < .5:
                name, vec = 'permutation_from0', self.problem.convert_original_perm_to_perm_from0(x)
        given = list(vec)
        self.told(want, self.problem.evaluate_from_encoding(vec, name), f'objectives of {name} {given}')
        if vec != given:
            self.fail('invalid content', f'{name} {given} became {vec} when evaluated')
        self.stats['encodings'] += 1

    def search(self, o):
        """a local search over the real moves, from a copy of the current solution"""
        kind = self.spec['kind']
        ls, hc, sa, dp = im(G + 'ls.local_search'), im(G + 'ls.hill_climber'), im(G + 'ls.simulated_annealing'), im(G + 'do_problem')
        params = dp.get_default_objective_setup(self.problem)
        if params.objective_handling == dp.ObjectiveHandling.MULTI_OBJ:
            return
        before = read(kind, self.cur)
        kw = dict(evaluator=self.problem, mutator=self.muts[o['i'] % len(self.muts)], restart_handler=ls.RestartHandlerLimit(
            3, cur_solution=self.cur.copy(), cur_objective=dp.build_aggreg_function_and_params_objective(self.problem)[0](self.cur.copy())),
            mode_mutation=[ls.ModeMutation.MUTATE, ls.ModeMutation.MUTATE_AND_EVALUATE][o['told']],
            params_objective_function=params, store_solution=bool(o['i'] & 4))
        if o['i'] & 8:
            solver = hc.HillClimber(**kw)
        else:
            solver = sa.SimulatedAnnealing(temperature_handler=sa.TemperatureSchedulingFactor(
                temperature=5., restart_handler=kw['restart_handler'], coefficient=.9), **kw)
        store = solver.solve(initial_variable=self.cur.copy(), nb_iteration_max=o['i'] % 9 + 1, pickle_result=False)
        if read(kind, self.cur) != before:
            return self.fail('copies share', f'searching from a copy made {read(kind, self.cur)} of {before}')
        f, fd, _ = dp.build_aggreg_function_and_params_objective(self.problem)
        for s, fit in store.list_solution_fits:
            x = read(kind, s)
            if not valid(kind, self.inst, x):
                return self.fail('invalid content', f'search found {x}')
            want, _ = self.worth(x)
            if all(v is not None for v in want.values()):
                w = [want[a] * c for a, c in zip(params.objectives, params.weights)]
                w = w[0] if params.objective_handling == dp.ObjectiveHandling.SINGLE else sum(w)
                if not same(w, fit):
                    return self.fail('wrong fitness', f'search found {x} with {fit}, it is worth {w}')
        best = store.get_best_solution()
        self.look(best, 'best solution of a search')
        self.stats['searches'] += 1


class Moves(Harness):
    runs = {'quick': 20000, 'thorough': 400000}
    rule = ('every run is a history of moves (every registered mutation, portfolios and parameter variants), moves taken back and '
            'applied again, copies, assignments, changes of problem, evaluations of encodings, local searches and failing evaluations '
            'on one solution of a generated problem; the seed decides the history and every random choice inside')
    real = ['problems, solutions, mutations, local moves, robust problems, objective functions, local searches']
    stub = ['random generators seeded; failures injected into evaluate']
    assumptions = ['moves are taken back last first, on the solution they returned']

    def gen(self, rng, tier):
        kind = rng.choice(KINDS + ['single', 'multi', 'tsp', 'knapsack'])
        inst = gen_instance(rng, kind)
        insts = [inst] + [vary(rng, kind, inst) for _ in range(rng.choice([0, 1, 2]))]
        if kind == 'calendar':
            for i in insts:
                i['numpy'] = rng.random() < .5
        robust = None
        if len(insts) > 1 and rng.random() < .3 and kind not in ('vrp', 'knapsack_mobj', 'calendar'):
            robust = rng.choice(['MEAN', 'MEDIAN', 'MIN', 'MAX', 'PERCENTILE', 'PONDERATION'])
        ops = []
        for _ in range(rng.choice([2, 5, 8, 14] if tier == 'quick' else [3, 8, 14, 25])):
            op = rng.choice(['mutate'] * 8 + ['undo'] * 5 + ['redo', 'copy', 'copy', 'lazy', 'set', 'set', 'change', 'encode', 'dummy', 'search'])
            ops.append({'op': op, 'i': rng.randrange(1 << 20), 'told': rng.random() < .5,
                        'boom': rng.choice([0, 0, 1]) if rng.random() < .12 else None,
                        'look': rng.random() < .35, 'peek': rng.random() < .25})
        return {'kind': kind, 'instances': insts, 'robust': robust, 'portfolio': rng.choice([0, 0, 1, 2]), 'seed': rng.randrange(1 << 30),
                'ops': ops}

    def execute(self, spec, record=False):
        r = MoveRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, 0, r.stats['changing moves'] > 0, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        if spec['portfolio']:
            yield {**spec, 'portfolio': 0}
        if len(spec['instances']) > 1 and spec['robust'] is None:
            yield {**spec, 'instances': spec['instances'][:1]}
        for i, o in enumerate(spec['ops']):
            for k, v in (('boom', None), ('peek', False), ('look', False), ('told', False)):
                if o[k] != v:
                    yield {**spec, 'ops': spec['ops'][:i] + [{**o, k: v}] + spec['ops'][i + 1:]}


CHECKS = {'C32': Moves()}
