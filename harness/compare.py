"""Comparing solvers: result storages are merged and ranked, and solutions found on aggregated projects by a pool of workers are judged on other projects."""
import contextlib
import io
import pickle
import random
from unittest import mock

from harness.common import Harness, Outcome, drop_each
from harness.local import Base, Boom, G
from harness.moves import build, content, gen_instance, im, same, solution, vary, worth

AGG = ['mean', 'max', 'min', 'median']


class CompareRun(Base):
    def go(self):
        im('skdecide.utils')
        import numpy as np
        random.seed(self.spec['seed'])
        np.random.seed(self.spec['seed'] % (1 << 32))
        self.rng = random.Random(self.spec['seed'])
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                getattr(self, self.spec['what'])()
            except Exception as e:
                self.crash(self.spec['what'], e)

    # -- storages
    def storages(self):
        import numpy as np
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        sp, run = self.spec, self
        rs, rc, mo, dp = (im(G + m) for m in ('result_storage.result_storage', 'result_storage.resultcomparator', 'result_storage.multiobj_utils', 'do_problem'))
        names = [f'obj{k}' for k in range(sp['objectives'])]
        sense = dp.ModeOptim[sp['sense']]
        best = max if sp['sense'] == 'MAXIMIZATION' else min
        sign = 1 if best is max else -1

        class Sol:
            def __init__(self, x):
                self.x, self.problem = x, None

            def change_problem(self, p):
                self.problem = p

        class Scenario:
            def __init__(self, k):
                self.k = k

            def evaluate(self, s):
                run.event('evaluate', self.k, s.x)
                if s.problem is not self:
                    run.fail('other problem', f'{s.x} is evaluated in scenario {self.k} as a solution of {s.problem and s.problem.k}')
                return {n: s.x[0] * 100 + self.k * 10 + i for i, n in enumerate(names)}
        data = [[(Sol((k, j)), v) for j, v in enumerate(vs)] for k, vs in enumerate(sp['fits'])]
        stores = [rs.ResultStorage([(s, mo.TupleFitness(np.array(v), len(v))) for s, v in d], mode_optim=sense) for d in data]
        tests = [Scenario(k) for k in range(sp['tests'])] if sp['tests'] else None
        labels = [f's{k}' for k in range(len(stores))]
        self.arm = sp['boom'] if tests else None
        armed = self.arm is not None
        try:
            c = rc.ResultComparator(stores, labels, names, [1] * len(names), test_problems=tests)
        except Boom:
            self.faults['failed evaluation'] += 1
            c = None
        if armed and self.arm is None and c is not None:
            return self.fail('failure hidden', 'an evaluation failed, the comparator did not')
        self.arm = None
        if c is None:
            c = rc.ResultComparator(stores, labels, names, [1] * len(names), test_problems=tests)
        if tests:
            for k in range(len(stores)):
                for i, n in enumerate(names):
                    want = [k * 100 + t * 10 + i for t in range(sp['tests'])]
                    if list(c.reevaluated_results[k][n]) != want:
                        return self.fail('evaluated again', f'{c.reevaluated_results[k][n]} instead of {want}')
            self.stats['evaluated again'] += 1
        for i, n in enumerate(names):
            got = c.get_best_by_objective_by_result_storage(n)
            if list(got) != labels:
                return self.fail('best', f'storages {list(got)}')
            for d, l in zip(data, labels):
                want = best(v[i] for _, v in d)
                s, f = got[l]
                if f.vector_fitness[i] != want or list(f.vector_fitness) != dict((id(a), v) for a, v in d).get(id(s)):
                    return self.fail('best', f'{n} of {l}: {f.vector_fitness} of {s.x}, the best is {want}')
            c.plot_all_best_by_objective(n)
            bars = [b.get_height() for b in plt.gca().patches]
            under = [t.get_text() for t in plt.gca().get_xticklabels()]
            plt.close('all')
            if under != labels:
                return self.fail('bars', f'{under} under them')
            if bars != [best(v[i] for _, v in d) for d in data]:
                return self.fail('bars', f'{bars} for {n}')
            self.stats['bests'] += 1
        every = [(s, [sign * a for a in v]) for d in data for s, v in d]
        dom = lambda a, b: all(x >= y for x, y in zip(a, b)) and a != b
        want = sorted(s.x for s, v in every if not any(dom(w, v) for _, w in every))
        front = c.generate_super_pareto()
        if sorted(s.x for s, _ in front.paretos) != want:
            return self.fail('merged front', f'{sorted(s.x for s, _ in front.paretos)} instead of {want} ({sp["sense"]})')
        self.stats['fronts'] += 1
        if len(names) > 1:
            pick = self.rng.choice([None, names[-2:], names[-2:][::-1]])
            a, b = (names.index(n) for n in pick or names[:2])
            for what in ('one', 'many'):
                if what == 'one':
                    ax = c.plot_all_2d_paretos_single_plot(pick)
                    drawn = [x.get_offsets() for x in ax.collections]
                    title = (ax.get_xlabel(), ax.get_ylabel())
                    if title != (names[a], names[b]):
                        self.fail('axes', f'{title}')
                else:
                    fig = c.plot_all_2d_paretos_subplots(pick)
                    axs = fig.axes[:len(stores)]
                    drawn = [x.collections[0].get_offsets() for x in axs]
                    if [x.get_title() for x in axs] != labels:
                        self.fail('axes', f'{[x.get_title() for x in axs]}')
                plt.close('all')
                drawn = [[tuple(map(float, p)) for p in d] for d in drawn]
                if drawn != [[(float(v[a]), float(v[b])) for _, v in d] for d in data]:
                    return self.fail('points', f'{what}: {drawn}')
            c.plot_super_pareto()
            got = [tuple(map(float, p)) for x in plt.gca().collections for p in x.get_offsets()]
            plt.close('all')
            vec = {s.x: v for d in data for s, v in d}
            if sorted(got) != sorted((float(vec[x][0]), float(vec[x][1])) for x in want):
                return self.fail('points', f'front: {got}')
            self.stats['pictures'] += 1

    # -- robustness
    def robust(self):
        import numpy as np
        import copy
        sp, rng, run = self.spec, self.rng, self
        rt = im(G + 'robustness.robustness_tool')
        m = im('skdecide.builders.discrete_optimization.rcpsp.rcpsp_model')
        store = im(G + 'result_storage.result_storage').ResultStorage
        insts = sp['instances']
        models = [build(sp['kind'], i) for i in insts]
        inst_of = {id(x): i for x, i in zip(models, insts)}
        before = [copy.deepcopy(x.mode_details) for x in models]
        base, rest = models[0], models[1:]
        cut = sp['cut'] % (len(rest) + 1) if sp['given'] else None
        if cut is not None:
            cut = min(max(cut, 1), len(rest) - 1)
            t = rt.RobustnessTool(base, list(rest), rest[:cut], rest[cut:])
        else:
            t = rt.RobustnessTool(base, list(rest), proportion_train=sp['proportion'])
        train, test = t.train_instance, t.test_instance
        if sorted(map(id, train + test)) != sorted(map(id, rest)) or len(train) != (int(sp['proportion'] * len(rest)) if cut is None else cut):
            return self.fail('split', f'{len(train)} and {len(test)} of {len(rest)}')
        f = {'mean': np.mean, 'max': np.max, 'min': np.min, 'median': np.median}
        tags = [f'post_{a}' for a in AGG] * sp['post'] + [f'prio_{a}' for a in AGG] * sp['prio'] + ['original']
        found = {}

        def solve(model):
            run.event('solve', len(found))
            k = solve.index
            x = content(random.Random(sp['seed'] + k), sp['kind'], insts[0])
            found[k] = x
            tag = tags[k]
            if tag.startswith('post'):
                got = model.evaluate(solution(sp['kind'], model.list_problem[0], x))
                parts = [worth(sp['kind'], inst_of[id(i)], x)[0] for i in train]
                for key in parts[0]:
                    v = [p[key] for p in parts]
                    if None not in v and None not in [p['makespan'] for p in parts] and not same(float(f[tag[5:]](v)), got[key]):
                        run.fail('aggregated', f'{tag}: {key} {got[key]} of {v}')
                mine = model.list_problem[0]
            else:
                mine = model
                for j in model.mode_details:
                    for a in model.mode_details[j]:
                        for r, q in model.mode_details[j][a].items():
                            want = before[0][j][a][r] if tag == 'original' else int(f[tag[5:]]([i.mode_details[j][a][r] for i in train]))
                            if q != want:
                                run.fail('project', f'{tag}: {q} of {r} instead of {want} for task {j}')
            if sp['search'] and k == sp['seed'] % len(tags):
                res = rt.solve_model(model, postpro=sp['search'] == 1, nb_iteration=sp['seed'] % 7)
                s = res.best_solution
                found[k] = [list(map(int, s.rcpsp_permutation)), list(map(int, s.rcpsp_modes))]
                run.stats['searches'] += 1
                if tag == 'original':
                    first = model.get_dummy_solution()
                    a, b = (worth(sp['kind'], insts[0], [list(map(int, z.rcpsp_permutation)), list(map(int, z.rcpsp_modes))])[0]['makespan'] for z in (first, s))
                    if a is not None and (b is None or b > a):
                        run.fail('search', f'found {b} from {a}')
                return res
            s = solution(sp['kind'], mine, x)
            return store([(s, -1.)], best_solution=s)

        class Pool:
            open = 0

            def __init__(self, n=None):
                self.n = n

            def __enter__(self):
                return self

            def __exit__(self, *e):
                pass

            def close(self):
                pass

            join = terminate = close

            def map(self, fn, things, chunksize=None):
                return [r for _, r in sorted(self.finish(fn, things), key=lambda x: x[0])]

            imap = map

            def imap_unordered(self, fn, things, chunksize=None):
                return [r for _, r in self.finish(fn, things)]

            def starmap(self, fn, things, chunksize=None):
                return self.map(lambda a: fn(*a), things)

            def finish(self, fn, things):
                things = list(things)
                order = list(range(len(things)))
                rng.shuffle(order)
                out = []
                for k in order:
                    solve.index = k
                    out.append((k, fn(pickle.loads(pickle.dumps(things[k])))))
                return out
        solve.index = 0
        with mock.patch('multiprocessing.Pool', Pool):
            self.arm = sp['boom']
            armed = self.arm is not None
            try:
                r = t.solve_and_retrieve(solve, apriori=bool(sp['prio']), aposteriori=bool(sp['post']))
            except Boom:
                self.faults['failed worker'] += 1
                self.arm = None
                found.clear()
                r = t.solve_and_retrieve(solve, apriori=bool(sp['prio']), aposteriori=bool(sp['post']))
            else:
                if armed and self.arm is None:
                    return self.fail('failure hidden', 'a worker failed, the tool did not')
        self.arm = None
        if self.v:
            return
        if list(t.tags) != tags or len(t.models) != len(tags) or r.shape != (len(tags), len(test), 3):
            return self.fail('tags', f'{t.tags}, results {r.shape}')
        for k, tag in enumerate(tags):
            for j, i in enumerate(test):
                w, ok = worth(sp['kind'], inst_of[id(i)], found[k])
                if r[k, j, 0] != int(ok) or (ok and not (same(w['makespan'], r[k, j, 1]) and same(w['mean_resource_reserve'], r[k, j, 2]))):
                    return self.fail('results', f'{tag} on {j}: {list(r[k, j])} instead of {w}, feasible {ok}')
        for x, b in zip(models, before):
            if x.mode_details != b:
                return self.fail('project changed', f'{x.mode_details} instead of {b}')
        self.stats['robustness'] += 1


class Compare(Harness):
    runs = {'quick': 4000, 'thorough': 150000}
    real = ['generic_tools/result_storage/resultcomparator.py', 'generic_tools/robustness/robustness_tool.py: RobustnessTool', 'rcpsp_model.py: Aggreg_RCPSPModel and the projects, unmodified']
    stub = ['pool of workers: simulated, each works on a pickled copy, in an order drawn from the seed, and can fail', 'solvers of the projects: drawn solutions', 'scenarios: generated, can fail']

    def gen(self, rng, tier):
        seed = rng.randrange(1 << 30)
        if rng.random() < .5:
            n = rng.choice([1, 2, 2, 3])
            return {'what': 'storages', 'seed': seed, 'objectives': n, 'sense': rng.choice(['MAXIMIZATION', 'MINIMIZATION']), 'tests': rng.choice([0, 0, 1, 3]),
                    'boom': rng.choice([None, None, 0, 2]), 'fits': [[[rng.randint(-3, 3) for _ in range(n)] for _ in range(rng.choice([1, 2, 5, 9]))] for _ in range(rng.choice([1, 2, 3, 5]))]}
        kind = rng.choice(['single', 'multi'])
        inst = gen_instance(rng, kind)
        return {'what': 'robust', 'seed': seed, 'kind': kind, 'instances': [inst] + [vary(rng, kind, inst) for _ in range(rng.choice([2, 3, 5]))], 'given': rng.random() < .5,
                'cut': rng.randrange(10), 'proportion': rng.choice([.5, .8]), 'prio': rng.choice([0, 1, 1]), 'post': rng.choice([0, 1, 1]), 'search': rng.choice([0, 0, 0, 1, 2]), 'boom': rng.choice([None, None, None, 0, 3])}

    def execute(self, spec, record=False):
        r = CompareRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, sum(r.stats.values()) > 0, None, r.log)

    def shrink(self, spec):
        if spec['boom'] is not None:
            yield {**spec, 'boom': None}
        if spec['what'] == 'storages':
            for fits in drop_each(spec['fits'], 1):
                yield {**spec, 'fits': fits}
            for k, d in enumerate(spec['fits']):
                for e in drop_each(d, 1):
                    yield {**spec, 'fits': spec['fits'][:k] + [e] + spec['fits'][k + 1:]}
            if spec['tests']:
                yield {**spec, 'tests': 0}
        else:
            for k in ('prio', 'post'):
                if spec[k]:
                    yield {**spec, k: 0}
            if spec['search']:
                yield {**spec, 'search': 0}
            if len(spec['instances']) > 3:
                yield {**spec, 'instances': spec['instances'][:-1]}


CHECKS = {'C44': Compare()}
