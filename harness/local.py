"""Local search and large neighbourhood search: the real search loops, restart handlers and result storages over generated
problems, moves, sub-solvers, clocks and failures."""
import collections
import contextlib
import hashlib
import io
import itertools
import json
import math
import random
import time
from contextlib import contextmanager

from harness.common import Harness, Outcome, drop_each

G = 'skdecide.builders.discrete_optimization.generic_tools.'


class Boom(Exception):
    pass


class Endless(BaseException):
    pass


def hsh(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=6).digest(), 'big')


# ------------------------------------------------------------------------------------------------ problem
def gen_problem(rng, tier):
    n = rng.choice([1, 2, 3, 4, 6])
    objs = rng.choice([['a'], ['a'], ['a', 'b'], ['a', 'b', 'c']])
    return {'n': n, 'salt': rng.randrange(1 << 30), 'range': rng.choice([2, 2, 3, 5]), 'objs': objs,
            'weights': [rng.choice([1, 1, -1, 2, .5, -3]) for _ in objs], 'spread': rng.choice([2, 5, 20, 1000]),
            'handling': rng.choice(['SINGLE', 'AGGREGATE', 'AGGREGATE']), 'sense': rng.choice(['MAXIMIZATION', 'MINIMIZATION']),
            'eq': rng.choice(['value', 'identity'])}


def value(p, x, k):
    """objective k of the vector x"""
    i = p['objs'].index(k)
    lin = sum((hsh(p['salt'], i, j) % 7 - 3) * v for j, v in enumerate(x))
    return float(lin + hsh(p['salt'], i, tuple(x)) % p['spread'])


def fitness(p, x):
    vals = [value(p, x, k) * w for k, w in zip(p['objs'], p['weights'])]
    if p['handling'] == 'SINGLE':
        return vals[0]
    return sum(vals) if p['handling'] == 'AGGREGATE' else tuple(vals)


def classes(p, run):
    from importlib import import_module as im
    dp = im(G + 'do_problem')

    class Sol(dp.Solution):
        def __init__(self, x):
            self.x = list(x)

        def copy(self):
            return Sol(self.x)

        def change_problem(self, new_problem):
            pass

        def __repr__(self):
            return f'Sol{self.x}'
    if p['eq'] == 'value':
        Sol.__eq__ = lambda self, o: self.x == o.x
        Sol.__hash__ = lambda self: hash(tuple(self.x))

    class Prob(dp.Problem):
        def evaluate(self, variable):
            run.event('evaluate', variable.x)
            return {k: value(p, variable.x, k) for k in p['objs']}

        def satisfy(self, variable):
            return True

        def get_attribute_register(self):
            return dp.EncodingRegister({'x': {'name': 'x', 'type': [dp.TypeAttribute.LIST_INTEGER], 'n': p['n']}})

        def get_solution_type(self):
            return Sol

        def get_objective_register(self):
            return dp.ObjectiveRegister(objective_sense=dp.ModeOptim[p['sense']],
                                        objective_handling=dp.ObjectiveHandling[p['handling']],
                                        dict_objective_to_doc={k: {'type': dp.TypeObjective.OBJECTIVE, 'default_weight': w}
                                                               for k, w in zip(p['objs'], p['weights'])})
    params = dp.ParamsObjectiveFunction(objective_handling=dp.ObjectiveHandling[p['handling']], objectives=list(p['objs']),
                                        weights=list(p['weights']), sense_function=dp.ModeOptim[p['sense']])
    return Sol, Prob, params


class Base:
    def __init__(self, spec, record=False):
        self.spec, self.record = spec, record
        self.v, self.log = [], []
        self.stats, self.faults = collections.Counter(), collections.Counter()
        self.h = hashlib.blake2b(digest_size=16)
        self.steps, self.arm, self.now, self.n = 0, None, 0., 0
        self.quiet = False
        self.watch, self.backtracks, self.last = True, 0, None

    def fail(self, cls, detail):
        if not self.v:
            self.v.append((cls, f'op {self.n}: {detail}'))

    def event(self, *what):
        if self.quiet:
            return
        self.steps += 1
        self.h.update(repr(what).encode())
        if self.record:
            self.log.append('    ' + ' '.join(map(str, what)))
        if self.steps > 200000:
            raise Endless
        if self.arm is not None:
            self.arm -= 1
            if self.arm < 0:
                self.arm = None
                raise Boom('injected')

    def crash(self, what, e):
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        self.fail('raises', f'{what}: {type(e).__name__}: {e} ({tb.filename.split("/")[-1]}:{tb.name})')

    def better(self, p, a, b):
        return a > b if p['sense'] == 'MAXIMIZATION' else a < b

    def best(self, p, fits):
        return (max if p['sense'] == 'MAXIMIZATION' else min)(fits)

    def judge_store(self, p, store, entries, what):
        """entries: what the storage must hold at least: vectors; its pairs must be true, its best the best of all"""
        pairs = [(s.x, f) for s, f in store.list_solution_fits]
        for x, f in pairs:
            if f != fitness(p, x):
                return self.fail('fitness and solution differ', f'{what}: {x} is stored with {f}, its fitness is {fitness(p, x)}')
        have = {tuple(x) for x, _ in pairs}
        for x in entries:
            if tuple(x) not in have:
                return self.fail('solution lost', f'{what}: {x} with fitness {fitness(p, x)} is not in the result')
        if not pairs:
            return
        top = self.best(p, [f for _, f in pairs])
        last = max(i for i, (_, f) in enumerate(pairs) if f == top)
        got = {'get_best_solution_fit': store.get_best_solution_fit()[0], 'get_best_solution': store.get_best_solution(),
               'get_last_best_solution': store.get_last_best_solution()[0], 'best_solution': store.best_solution,
               'get_random_best_solution': store.get_random_best_solution()[0]}
        for k, s in got.items():
            if s is None or fitness(p, s.x) != top:
                return self.fail('not the best', f'{what}: {k} is {s} with {s and fitness(p, s.x)}, the best of {pairs} is {top}')
        if store.get_last_best_solution()[0] is not store.list_solution_fits[last][0]:
            return self.fail('not the last best', f'{what}: of {pairs}')
        s, f = store.get_random_solution()
        if f == top and any(g != top for _, g in pairs):
            return self.fail('not another one', f'{what}: get_random_solution gives a best solution of {pairs}')


# ------------------------------------------------------------------------------------------------ local search
class LocalRun(Base):
    def go(self):
        sp = self.spec
        random.seed(sp['seed'])
        p = sp['problem']
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.search(sp, p) if sp['mode'] != 'store' else self.storage(sp, p)
        except Endless:
            self.fail('no end', 'more events than any search allowed here can cause')
        except Exception as e:
            self.crash(sp['mode'], e)

    def mutator(self, p, Sol):
        from importlib import import_module as im
        dm = im(G + 'do_mutation')
        run, sp = self, self.spec
        rng = random.Random(sp['seed'])

        class Undo(dm.LocalMove):
            def __init__(self, old):
                self.old = old

            def apply_local_move(self, solution):
                raise NotImplementedError

            def backtrack_local_move(self, solution):
                run.event('backtrack', solution.x)
                run.backtracks += 1
                if solution is not run.last[1]:
                    run.fail('wrong solution', 'a move is taken back on another solution than the one it made')
                for i, v in reversed(self.old):
                    solution.x[i] = v
                return solution

        class Back(dm.LocalMoveDefault):
            def backtrack_local_move(self, solution):
                run.event('backtrack', solution.x)
                run.backtracks += 1
                return super().backtrack_local_move(solution)

        class Mut(dm.Mutation):
            def mutate(self, solution):
                run.event('mutate', solution.x)
                run.meet(solution)
                x = list(solution.x)
                old = []
                for _ in range(rng.choice([1, 1, 2])):
                    i, v = rng.randrange(len(x)), rng.randrange(p['range'])
                    old.append((i, x[i]))
                    x[i] = v
                if sp['inplace'] and rng.random() < .8:
                    new, move = solution, Undo(old)
                    solution.x[:] = x
                else:
                    new = Sol(x)
                    move = Back(solution, new)
                run.made(list(x), new)

                return new, move

            def mutate_and_compute_obj(self, solution):
                new, move = self.mutate(solution)
                run.event('evaluate', new.x)
                return new, move, {k: value(p, new.x, k) for k in p['objs']}
        return Mut()

    # the reference: which solution the search may stand on
    def meet(self, solution):
        x = solution.x
        if not self.watch:
            self.count += 1
            return
        self.close()
        if tuple(x) not in self.may:
            self.fail('wrong step', f'iteration {self.count}: the search goes on from {x}, it may only from {sorted(self.may)}')
        self.cur = list(x)
        self.count += 1
        self.backtracks = 0

    def made(self, x, obj):
        self.last = (x, obj)
        self.open = True
        self.tried.append(x)

    def close(self):
        """End of an iteration: what is allowed next."""
        if not self.open:
            return
        self.open = False
        sp, p = self.spec, self.spec['problem']
        f, fc = fitness(p, self.last[0]), fitness(p, self.cur)
        up = self.better(p, f, fc)
        new = self.better(p, f, self.top)
        if sp['mode'] == 'hill':
            self.may = {tuple(self.last[0] if up else self.cur)}
        else:
            self.may = {tuple(self.last[0])}
            if f != fc and not up:
                gap = abs(f - fc)
                t = self.temp.temperature_at(self.count)
                if gap > 800 * t:
                    self.may = {tuple(self.cur)}
                elif gap > 1e-15 * t:
                    self.may.add(tuple(self.cur))
        self.idle[0] = 0 if new else self.idle[0] + 1
        self.idle[1] = 0 if up else self.idle[1] + 1
        if new:
            self.top, self.topx = f, list(self.last[0])
        if sp['restart'] is not None and max(self.idle) > sp['restart']:
            self.idle = [0, 0]
            self.may = {tuple(self.topx)}
            self.stats['restarts'] += 1

    def search(self, sp, p):
        from importlib import import_module as im
        ls, hc, sa = im(G + 'ls.local_search'), im(G + 'ls.hill_climber'), im(G + 'ls.simulated_annealing')
        Sol, Prob, params = classes(p, self)
        prob = Prob()
        starts = [Sol(x) for x in sp['starts']]
        if sp['restart'] is None:
            handler = ls.RestartHandler()
        else:
            handler = ls.RestartHandlerLimit(sp['restart'], cur_solution=starts[0].copy(), cur_objective=fitness(p, starts[0].x))
        if sp.get('wild'):
            run, jump = self, random.Random(sp['wild'])

            class Wild(ls.RestartHandler):
                """a handler which goes anywhere, but to no solution better than those met"""
                def restart(self, cur_solution, cur_objective):
                    run.close()
                    s = jump.choice(starts).copy()
                    if jump.random() < .25 and not run.better(p, fitness(p, s.x), run.top):
                        run.may = {tuple(s.x)}
                        run.stats['restarts elsewhere'] += 1
                        return s, fitness(p, s.x)
                    return cur_solution, cur_objective
            handler = Wild()
        mode = ls.ModeMutation[sp['mutation']]
        self.mut = self.mutator(p, Sol)
        if sp['mode'] == 'pareto':
            return self.pareto(sp, p, hc, dict(evaluator=prob, mutator=self.mut, restart_handler=handler, mode_mutation=mode,
                                               params_objective_function=params, store_solution=sp['store']), starts)
        for self.n, o in enumerate(sp['ops']):
            init = starts[o['start'] % len(starts)]
            before = list(init.x)
            kw = dict(evaluator=prob, mutator=self.mut, restart_handler=handler, mode_mutation=mode,
                      params_objective_function=params, store_solution=sp['store'])
            self.temp = None
            if self.n == 0 or sp['fresh']:
                if sp['mode'] == 'hill':
                    solver = hc.HillClimber(**kw)
                else:
                    self.heat = sa.TemperatureSchedulingFactor(temperature=sp['temp'], restart_handler=handler, coefficient=sp['coef'])
                    solver = sa.SimulatedAnnealing(temperature_handler=self.heat, **kw)
            if sp['mode'] == 'anneal':
                self.temp = self
                self.t0 = self.heat.temperature
            if self.n and sp['restart'] is not None:
                # the counters of a handler which is used again go on
                pass
            else:
                self.idle = [0, 0]
            self.may, self.open, self.count, self.tried, self.cur = {tuple(init.x)}, False, 0, [], list(init.x)
            self.top, self.topx = fitness(p, init.x), list(init.x)
            self.arm = o['boom']
            try:
                store = solver.solve(initial_variable=init, nb_iteration_max=o['iters'], pickle_result=False)
            except Boom:
                self.faults['the problem raises'] += 1
                self.arm = None
                if self.v:
                    return
                # what a handler counted in a failed search is open: go on with a new one
                if sp['restart'] is not None:
                    return
                self.open = False
                continue
            if self.arm is None and o['boom'] is not None:
                self.fail('swallowed', 'a failure of the problem did not reach the caller')
            self.arm = None
            self.close()
            if self.v:
                return
            self.stats['searches'] += 1
            self.stats['iterations'] += self.count
            if self.count != o['iters']:
                self.fail('wrong number of moves', f'{self.count} moves, asked for {o["iters"]}')
            if init.x != before:
                self.fail('the start is modified', f'{before} became {init.x}')
            must = [before, self.topx]
            if sp['store']:
                must += self.tried
            self.quiet = True
            self.judge_store(p, store, must, 'result')
            if not self.v:
                top = self.best(p, [fitness(p, x) for x in [before] + self.tried])
                if handler.best_fitness != top or fitness(p, handler.solution_best.x) != top:
                    self.fail('not the best', f'the restart handler knows {handler.solution_best} with {handler.best_fitness} as the '
                              f'best, a solution with {top} was met')
                s, f = store.get_best_solution_fit()
                if f != top:
                    self.fail('not the best', f'the result is {s} with {f}, a solution with {top} was met')
            self.quiet = False
            self.h.update(repr([(s.x, f) for s, f in store.list_solution_fits]).encode())
            if self.v:
                return

    def pareto(self, sp, p, hc, kw, starts):
        self.watch = False
        solver = hc.HillClimberPareto(**kw)
        sign = 1 if p['sense'] == 'MAXIMIZATION' else -1
        dom = lambda a, b: all(sign * x >= sign * y for x, y in zip(a, b)) and a != b
        for self.n, o in enumerate(sp['ops']):
            init = starts[o['start'] % len(starts)]
            before = list(init.x)
            self.tried, self.count = [], 0
            self.arm = o['boom']
            try:
                front = solver.solve(initial_variable=init, nb_iteration_max=o['iters'], update_iteration_pareto=sp['every'])
            except Boom:
                self.faults['the problem raises'] += 1
                self.arm = None
                return
            if self.arm is None and o['boom'] is not None:
                self.fail('swallowed', 'a failure of the problem did not reach the caller')
            self.arm = None
            self.quiet = True
            if self.v:
                return
            if self.count != o['iters']:
                self.fail('wrong number of moves', f'{self.count} moves, asked for {o["iters"]}')
            if init.x != before:
                self.fail('the start is modified', f'{before} became {init.x}')
            for s, f in front.list_solution_fits:
                if tuple(f.vector_fitness) != fitness(p, s.x):
                    self.fail('fitness and solution differ', f'{s} is stored with {f}, its fitness is {fitness(p, s.x)}')
                    return
            pts = {fitness(p, x) for x in [before] + self.tried}
            want = sorted(a for a in pts if not any(dom(b, a) for b in pts))
            got = sorted({tuple(f.vector_fitness) for _, f in front.paretos})
            if got != want:
                self.fail('wrong front', f'front {got}, of the solutions met it is {want}, {p["sense"]}')
                return
            self.stats['fronts'] += 1
            self.stats['iterations'] += self.count
            self.quiet = False
            self.h.update(repr(got).encode())

    def temperature_at(self, k):
        return self.t0 * self.spec['coef'] ** (k - 1)

    # ---------------------------------------------------------------------------------------- storages on their own
    def storage(self, sp, p):
        from importlib import import_module as im
        rs = im(G + 'result_storage.result_storage')
        dp = im(G + 'do_problem')
        mo = im(G + 'result_storage.multiobj_utils')
        Sol, Prob, params = classes(p, self)
        prob = Prob()
        import numpy as np
        multi = p['handling'] == 'MULTI_OBJ'
        sense = dp.ModeOptim[p['sense']]

        def fit(x):
            f = fitness(p, x)
            return mo.TupleFitness(np.array(f), len(f)) if multi else f
        ref = []
        pool = [Sol(x) for x in sp['starts']]

        def pick(i):
            return pool[i % len(pool)]

        ever = []

        def put(x):
            for s in ever:
                if s is x or p['eq'] == 'value' and s.x == x.x:
                    return
            ever.append(x)
            ref.append(x)
        first = [pick(i) for i in sp['first']]
        if p['eq'] == 'value' or True:
            uniq = []
            for x in first:
                if not any(x is y or x.x == y.x for y in uniq):
                    uniq.append(x)
            first = uniq
        cls = rs.ParetoFront if sp['front'] else rs.ResultStorage
        store = cls(list_solution_fits=[(s, fit(s.x)) for s in first], best_solution=None, mode_optim=sense,
                    limit_store=sp['limit'] is not None, nb_best_store=sp['limit'] or 1000)
        for s in first:
            put(s)
        for self.n, (op, i) in enumerate(sp['ops']):
            self.event(op, i)
            if op == 'add':
                s = pick(i)
                store.add_solution(s, fit(s.x))
                put(s)
            elif op == 'finalize':
                store.finalize()
            elif op == 'unique':
                store.remove_duplicate_solutions('x')
                seen, keep = [], []
                for s in ref:
                    if s.x not in seen:
                        seen.append(s.x)
                        keep.append(s)
                ref = keep
            elif op == 'front':
                if not ref:
                    continue
                pf = rs.result_storage_to_pareto_front(store, prob if i % 2 else None)
                vec = (lambda x: [value(p, x, k) for k in sorted(p['objs'])]) if i % 2 else \
                    (lambda x: list(fitness(p, x)) if multi else [fitness(p, x)])
                if not multi and not i % 2:
                    continue
                self.judge_front(p, pf, ref, vec, sense, mo)
            self.stats['storage operations'] += 1
            if self.v:
                return
            if multi:
                pairs = [(s, tuple(f.vector_fitness)) for s, f in store.list_solution_fits]
                if [(id(s), f) for s, f in pairs] != [(id(s), fitness(p, s.x)) for s in ref]:
                    self.fail('solution lost', f'stored {pairs}, added {ref}')
                if op == 'finalize' and sp['front'] and ref:
                    self.judge_front(p, store, ref, lambda x: list(fitness(p, x)), sense, mo)
            else:
                if [id(s) for s, _ in store.list_solution_fits] != [id(s) for s in ref]:
                    self.fail('solution lost', f'stored {store.list_solution_fits}, added {ref}')
                    return
                self.judge_store(p, store, [s.x for s in ref], op)
            if self.v:
                return

    def judge_front(self, p, pf, ref, vec, sense, mo):
        sign = 1 if p['sense'] == 'MAXIMIZATION' else -1
        pts = {id(s): [sign * v for v in vec(s.x)] for s in ref}
        dom = lambda a, b: all(x >= y for x, y in zip(a, b)) and a != b
        want = {i for i, a in pts.items() if not any(dom(b, a) for b in pts.values())}
        got = [id(s) for s, _ in pf.paretos]
        if sorted(got) != sorted(want) or pf.len_pareto_front() != len(want):
            return self.fail('wrong front', f'front {[(s.x, vec(s.x)) for s, _ in pf.paretos]} of {[(s.x, vec(s.x)) for s in ref]}, {p["sense"]}')
        ext = pf.compute_extreme_points()
        for k, (s, _) in enumerate(ext):
            if pts[id(s)][k] != max(v[k] for v in pts.values()):
                return self.fail('wrong extreme point', f'objective {k}: {s.x} of {[(s.x, vec(s.x)) for s in ref]}')
        self.stats['fronts'] += 1


class Local(Harness):
    runs = {'quick': 40000, 'thorough': 2000000}
    rule = 'a run with more than three moves, evaluations or storage operations'
    real = ['generic_tools/ls', 'generic_tools/result_storage', 'generic_tools/do_problem.py', 'generic_tools/do_mutation.py']
    stub = ['problem and moves: generated, with in-place and copying moves; they can fail at any call', 'random: seeded']
    assumptions = ['a move which is taken back restores the solution it was made on']

    def gen(self, rng, tier):
        mode = rng.choice(['hill', 'hill', 'anneal', 'anneal', 'store', 'pareto'])
        p = gen_problem(rng, tier)
        big = 300 if tier == 'thorough' else 60
        spec = {'mode': mode, 'seed': rng.getrandbits(32), 'problem': p,
                'starts': [[rng.randrange(p['range']) for _ in range(p['n'])] for _ in range(rng.choice([1, 2, 6]))]}
        if mode == 'store':
            if rng.random() < .5:
                p['handling'] = 'MULTI_OBJ'
                p['spread'] = rng.choice([1, 2, 3, 5])
            spec['front'] = p['handling'] == 'MULTI_OBJ' and rng.random() < .6
            spec['starts'] = [[rng.randrange(p['range']) for _ in range(p['n'])] for _ in range(rng.choice([1, 3, 8]))]
            spec['first'] = [rng.randrange(8) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
            spec['limit'] = rng.choice([None, 1, 2, 3, 1000])
            spec['ops'] = [[rng.choice(['add', 'add', 'add', 'finalize', 'unique', 'front']), rng.randrange(8)]
                           for _ in range(rng.randint(1, 12))]
            return spec
        if mode == 'pareto':
            p['handling'] = 'MULTI_OBJ'
            p['spread'] = rng.choice([2, 5, 5, 20])
            spec['every'] = rng.choice([1, 3, 1000])
        spec.update(mutation=rng.choice(['MUTATE', 'MUTATE_AND_EVALUATE']), inplace=rng.random() < .6, store=rng.random() < .5,
                    restart=rng.choice([None, 0, 1, 3, 10]), fresh=rng.random() < .5, temp=rng.choice([1e-9, .01, 1., 10., 1000.]),
                    coef=rng.choice([.99, .9, .5, .01, 1e-200]))
        if mode != 'pareto' and rng.random() < .25:
            spec.update(restart=None, wild=rng.randrange(1, 1 << 30))
        spec['ops'] = [{'start': rng.randrange(6), 'iters': rng.choice([0, 1, 2, 5, 20, rng.randint(0, big)]),
                        'boom': rng.randrange(60) if rng.random() < .15 else None} for _ in range(rng.choice([1, 1, 2]))]
        return spec

    def execute(self, spec, record=False):
        r = LocalRun(spec, record)
        r.go()
        if record:
            r.log.insert(0, json.dumps(spec))
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, r.steps > 3, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        if spec['mode'] != 'store':
            for i, o in enumerate(spec['ops']):
                for k in (0, o['iters'] // 2, o['iters'] - 1):
                    if 0 <= k < o['iters']:
                        yield {**spec, 'ops': spec['ops'][:i] + [{**o, 'iters': k}] + spec['ops'][i + 1:]}
                if o['boom'] is not None:
                    yield {**spec, 'ops': spec['ops'][:i] + [{**o, 'boom': None}] + spec['ops'][i + 1:]}
            for k, x in (('inplace', False), ('store', False), ('restart', None), ('mutation', 'MUTATE')):
                if spec[k] != x:
                    yield {**spec, k: x}
        else:
            for f in drop_each(spec['first']):
                yield {**spec, 'first': f}
        p = spec['problem']
        if len(p['objs']) > 1:
            yield {**spec, 'problem': {**p, 'objs': p['objs'][:-1], 'weights': p['weights'][:-1]}}
        if len(spec['starts']) > 1:
            for s in drop_each(spec['starts'], 1):
                yield {**spec, 'starts': s}
        if p['n'] > 1:
            yield {**spec, 'problem': {**p, 'n': p['n'] - 1}, 'starts': [x[:-1] for x in spec['starts']]}


# ------------------------------------------------------------------------------------------------ neighbourhoods
@contextmanager
def simulated_time(run):
    """time.time and its kin read the clock of the run."""
    keep = {k: getattr(time, k) for k in ('time', 'monotonic', 'perf_counter')}
    time.time = lambda: 1.6e9 + run.now + run.skew
    time.monotonic = time.perf_counter = lambda: run.now
    try:
        yield
    finally:
        for k, f in keep.items():
            setattr(time, k, f)


class LnsRun(Base):
    def go(self):
        sp = self.spec
        random.seed(sp['seed'])
        self.skew = 0.
        try:
            with contextlib.redirect_stdout(io.StringIO()), simulated_time(self):
                self.search(sp, sp['problem'])
        except Endless:
            self.fail('no end', 'more events than any search allowed here can cause')
        except Exception as e:
            self.crash(sp['mode'], e)

    def search(self, sp, p):
        from importlib import import_module as im
        dp, rs, cp, mip = im(G + 'do_problem'), im(G + 'result_storage.result_storage'), im(G + 'lns_cp'), im(G + 'lns_mip')
        cpt, lpt = im(G + 'cp_tools'), im(G + 'lp_tools')
        Sol, Prob, params = classes(p, self)
        sense = dp.ModeOptim[p['sense']]
        run = self
        store = lambda xs: rs.ResultStorage(list_solution_fits=[(s, fitness(p, s.x)) for s in map(Sol, xs)], best_solution=None,
                                            mode_optim=sense)
        state = {'model': [], 'made': 0, 'branches': 0}

        def step():
            """what this solve finds, how long it takes, whether it fails"""
            o = run.op['steps'][run.k] if run.k < len(run.op['steps']) else {'xs': [], 'dt': 1., 'fail': None, 'post': []}
            run.k += 1
            return o

        def neighbourhood(result, where):
            run.event('constraints', where)
            if result is None or not result.list_solution_fits:
                run.fail('no solution to start from', 'constraints are asked for without any solution')
            else:
                run.quiet = True
                run.judge_store(p, result, [], 'the results a neighbourhood is made from')
                run.quiet = False
            best = None if result is None or not result.list_solution_fits else run.best(p, [f for _, f in result.list_solution_fits])
            run.asked.append(best)
            state['made'] += 1
            c = ['constraint', state['made']]
            return c

        class Init(mip.InitialSolution):
            def get_starting_solution(self):
                run.event('start')
                run.inits += 1
                return store(run.op['init'])

        class Post(mip.PostProcessSolution):
            def build_other_solution(self, result_storage):
                run.event('post')
                for x in run.cur['post']:
                    result_storage.add_solution(Sol(x), fitness(p, x))
                return result_storage

        class Child:
            def __init__(self):
                self.cs, self.live = [], False
                state['branches'] += 1

            def __enter__(self):
                self.live = True
                return self

            def __exit__(self, *a):
                self.live = False
                run.event('branch ends')

            def solve(self, timeout=None, intermediate_solutions=None):
                if not self.live:
                    run.fail('solve outside of its branch', '')
                run.solves.append([timeout.total_seconds(), list(self.cs)])
                return found()

        def found():
            o = run.cur = step()
            run.event('solve', run.k)
            run.now += o['dt']
            run.skew += o.get('jump', 0)
            if o['fail'] == 'solve':
                run.faults['sub-solver fails'] += 1
                raise Boom('solve')
            if o.get('jump'):
                run.faults['clock jump'] += 1
            if not o['xs']:
                run.faults['sub-solver finds nothing'] += 1
            return type('Result', (), {'xs': o['xs'], 'status': 'SIMULATED'})()

        class Cp(cpt.CPSolver):
            class instance:
                @staticmethod
                def branch():
                    return Child()

            def init_model(self, **a):
                pass

            def retrieve_solutions(self, result, parameters_cp):
                if run.cur['fail'] == 'retrieve':
                    run.faults['result cannot be read'] += 1
                    raise Boom('retrieve')
                return store(result.xs)

            def solve(self, parameters_cp, **a):
                raise NotImplementedError

        class CpConstraints(cp.ConstraintHandler):
            def adding_constraint_from_results_store(self, cp_solver, child_instance, result_storage):
                c = neighbourhood(result_storage, 'cp')
                if not child_instance.live:
                    run.fail('constraints outside of a branch', '')
                child_instance.cs.append(c)
                return {'c': c}

            def remove_constraints_from_previous_iteration(self, cp_solver, child_instance, previous_constraints):
                pass

        class Milp(lpt.MilpSolver):
            def init_model(self, **a):
                pass

            def retrieve_solutions(self, parameters_milp):
                raise NotImplementedError

            def solve(self, parameters_milp, **a):
                run.solves.append([None, list(state['model'])])
                return store(found().xs)

        class MilpConstraints(mip.ConstraintHandler):
            def adding_constraint_from_results_store(self, milp_solver, result_storage):
                c = neighbourhood(result_storage, 'milp')
                state['model'].append(c)
                return {'c': c}

            def remove_constraints_from_previous_iteration(self, milp_solver, previous_constraints):
                run.event('remove')
                c = previous_constraints['c']
                if c not in state['model']:
                    run.fail('constraints removed twice', str(c))
                else:
                    state['model'].remove(c)
        prob = Prob()
        post = Post() if sp['post'] else None
        if sp['mode'] == 'cp':
            lns = cp.LNS_CP(problem=prob, cp_solver=Cp(), initial_solution_provider=Init(), constraint_handler=CpConstraints(),
                            post_process_solution=post, params_objective_function=params)
            par = cpt.ParametersCP.default()
            par.TimeLimit, par.TimeLimit_iter0 = 17, 23
            kw = {'parameters_cp': par}
        else:
            lns = mip.LNS_MILP(problem=prob, milp_solver=Milp(), initial_solution_provider=Init(),
                               constraint_handler=MilpConstraints(), post_process_solution=post, params_objective_function=params)
            kw = {'parameters_milp': lpt.ParametersMilp.default()}
        for self.n, o in enumerate(sp['ops']):
            self.op, self.k, self.solves, self.asked, self.inits = o, 0, [], [], 0
            before = list(state['model'])
            try:
                out = lns.solve_lns(nb_iteration_lns=o['nb'], nb_iteration_no_improvement=o['idle'], max_time_seconds=o['time'],
                                    skip_first_iteration=o['skip'], **kw)
            except Boom:
                if sp['mode'] == 'cp':
                    self.fail('failure of one iteration', 'the failure of a sub-solver ended the whole search')
                # the caller knows: what is left in the model is open
                return
            if self.v:
                return
            self.judge(sp, p, o, out)
            if not self.v and sp['mode'] == 'milp' and o['nb'] and state['model']:
                self.fail('constraints are left', f'after the search the model still holds {state["model"]}')
            if self.v:
                return
            self.stats['searches'] += 1
            self.stats['iterations'] += len(self.solves)
            self.h.update(repr([(s.x, f) for s, f in out.list_solution_fits]).encode())

    def judge(self, sp, p, o, out):
        # what a search with these sub-solver answers does
        known = [] if o['skip'] else list(o['init'])
        best = self.best(p, [fitness(p, x) for x in known]) if known else None
        idle, t, wall, n, expect = 0, 0., 0., 0, []
        limit = 3600 * 24 if o['time'] is None else o['time']
        maxidle = 2 * o['nb'] if o['idle'] is None else o['idle']
        for k in range(o['nb']):
            st = o['steps'][k] if k < len(o['steps']) else {'xs': [], 'dt': 1., 'fail': None, 'post': []}
            expect.append(bool(known))
            n += 1
            wall += st['dt'] + st.get('jump', 0)
            up = False
            if st['fail'] is None and st['xs']:
                new = st['xs'] + (st['post'] if sp['post'] else [])
                top = self.best(p, [fitness(p, x) for x in new])
                if best is None or self.better(p, top, best):
                    best, up = top, True
                known += new
            idle = 0 if up else idle + 1
            if wall > limit + 1e-9 or idle > maxidle:
                break
        if len(self.solves) != n:
            return self.fail('wrong number of iterations', f'{len(self.solves)} solves, expected {n} of {o["nb"]} (no improvement {maxidle}, time {limit})')
        for k, (timeout, cs) in enumerate(self.solves):
            if len(cs) != int(expect[k]):
                return self.fail('wrong neighbourhood', f'solve {k} runs with {len(cs)} neighbourhoods, expected {int(expect[k])}')
            if timeout is not None and timeout != (23 if k == 0 else 17):
                return self.fail('wrong time limit', f'solve {k}: {timeout}')
        ids = [c[1] for _, cs in self.solves for c in cs]
        if len(set(ids)) != len(ids):
            return self.fail('old neighbourhood', f'a neighbourhood is used twice: {ids}')
        if self.inits != (0 if o['skip'] else 1):
            return self.fail('wrong start', f'{self.inits} starting solutions asked for')
        if out is None:
            return self.fail('no result', 'the search returned None')
        self.quiet = True
        self.judge_store(p, out, known, 'result')
        if not self.v and {tuple(s.x) for s, _ in out.list_solution_fits} != {tuple(x) for x in known}:
            self.fail('wrong result', f'{out.list_solution_fits}, found {known}')
        self.quiet = False


class Lns(Harness):
    runs = {'quick': 40000, 'thorough': 2000000}
    rule = 'a run with more than three events'
    real = ['generic_tools/lns_cp.py: LNS_CP', 'generic_tools/lns_mip.py: LNS_MILP', 'generic_tools/result_storage']
    stub = ['sub-solver: finds what the seed says, takes simulated time, fails', 'constraint handler, starting and post-processed '
            'solutions: generated', 'clock: simulated, with jumps']
    assumptions = ['the starting solution exists unless the first iteration is skipped']

    def gen(self, rng, tier):
        p = gen_problem(rng, tier)
        vec = lambda: [rng.randrange(p['range']) for _ in range(p['n'])]
        mode = rng.choice(['cp', 'milp'])
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            nb = rng.choice([0, 1, 2, 3, 5, 8])
            dull = rng.random() < .3
            steps = []
            for _ in range(nb):
                st = {'xs': [vec() for _ in range(rng.choice([0, 1, 1, 2, 3]))], 'dt': rng.choice([0., .5, 1., 10., 100.]),
                      'fail': None, 'post': [vec() for _ in range(rng.choice([0, 0, 1, 2]))]}
                if dull and steps:
                    st = {**st, 'xs': steps[0]['xs'][:1], 'post': []}
                if rng.random() < .12:
                    st['fail'] = 'solve' if mode == 'milp' else rng.choice(['solve', 'retrieve'])
                if rng.random() < .06:
                    st['jump'] = rng.choice([1e6, 50., -5.])
                steps.append(st)
            ops.append({'nb': nb, 'idle': rng.choice([None, None, 0, 1, 2]), 'time': rng.choice([None, None, 0, 1, 10, 50]),
                        'skip': rng.random() < .35, 'init': [vec() for _ in range(rng.choice([1, 1, 3]))], 'steps': steps})
        return {'mode': mode, 'seed': rng.getrandbits(32), 'problem': p, 'post': rng.random() < .5, 'ops': ops}

    def execute(self, spec, record=False):
        r = LnsRun(spec, record)
        r.go()
        if record:
            r.log.insert(0, json.dumps(spec))
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, r.steps > 3, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        for i, o in enumerate(spec['ops']):
            put = lambda x: {**spec, 'ops': spec['ops'][:i] + [{**o, **x}] + spec['ops'][i + 1:]}
            for st in drop_each(o['steps']):
                yield put({'steps': st, 'nb': len(st)})
            for k, x in (('idle', None), ('time', None), ('skip', False)):
                if o[k] != x:
                    yield put({k: x})
            if len(o['init']) > 1:
                yield put({'init': o['init'][:1]})
            for j, st in enumerate(o['steps']):
                at = lambda x: put({'steps': o['steps'][:j] + [{**st, **x}] + o['steps'][j + 1:]})
                for k, x in (('fail', None), ('post', []), ('dt', 0.), ('jump', 0)):
                    if st.get(k, 0) != x and (k != 'jump' or st.get(k)):
                        yield at({k: x})
                for xs in drop_each(st['xs']):
                    yield at({'xs': xs})
        if spec['post']:
            yield {**spec, 'post': False}


CHECKS = {'C28': Local(), 'C29': Lns()}
