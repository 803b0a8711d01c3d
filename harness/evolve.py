"""Evolutionary searches: the real genetic searches over real problems, with seeded random choices and failing evaluations;
everything they evaluate and return is compared with what the vectors stand for and are worth."""
import contextlib
import io
import random
import warnings

from harness import moves as mv
from harness.common import Harness, Outcome
from harness.local import Base, Boom, G
from harness.moves import B, im, same
from harness.standins import commercial

ENCODINGS = {'knapsack': ['list_taken'], 'knapsack_mobj': ['list_taken'], 'tsp': ['permutation_from0', 'permutation'],
             'coloring': ['colors'], 'facility': ['facility_for_customers'], 'single': ['rcpsp_permutation'],
             'calendar': ['rcpsp_permutation'], 'multi': ['rcpsp_permutation', 'rcpsp_modes', 'rcpsp_modes_arrity_fix']}
OBJECTIVES = {'knapsack': ['value', 'weight_violation'], 'knapsack_mobj': ['value', 'weight_violation', 'weight', 'heaviest_item'],
              'tsp': ['length'], 'coloring': ['nb_colors', 'nb_violations'],
              'facility': ['cost', 'setup_cost', 'capacity_constraint_violation']}
CROSS = {'bool': ['CX_UNIFORM', 'CX_ONE_POINT', 'CX_TWO_POINT'], 'int': ['CX_UNIFORM', 'CX_ONE_POINT', 'CX_TWO_POINT'],
         'perm': ['CX_UNIFORM_PARTIALY_MATCHED', 'CX_ORDERED', 'CX_PARTIALY_MATCHED']}
MUT = {'bool': 'MUT_FLIP_BIT', 'int': 'MUT_UNIFORM_INT', 'perm': 'MUT_SHUFFLE_INDEXES'}


def form(enc):
    return 'bool' if enc == 'list_taken' else 'perm' if 'perm' in enc else 'int'


def size(kind, inst):
    return len(mv.content(random.Random(0), kind, inst)) if kind not in mv.RCPSP else inst['n']


def decode(kind, inst, enc, vec, fixed):
    """the content a vector stands for"""
    vec = [int(v) for v in vec]
    if enc == 'permutation_from0':
        free = [i for i in range(inst['n']) if i not in inst['ends']]
        return [free[i] for i in vec]
    if kind in mv.RCPSP:
        if enc == 'rcpsp_permutation':
            return [vec, list(fixed[1])]
        return [list(fixed[0]), [m + 1 if str(m + 1) in inst['modes'][str(t + 2)] else 1 for t, m in enumerate(vec)]]
    return vec


def fits(kind, inst, enc, vec):
    """is this a vector of the encoding"""
    n = size(kind, inst)
    vec = list(vec)
    if len(vec) != n:
        return False
    if enc == 'list_taken':
        return all(v in (0, 1) for v in vec)
    if enc in ('permutation_from0', 'rcpsp_permutation'):
        return sorted(vec) == list(range(n))
    if enc == 'permutation':
        return sorted(vec) == [i for i in range(inst['n']) if i not in inst['ends']]
    if enc == 'rcpsp_modes_arrity_fix':
        return all(0 <= v < len(inst['modes'][str(t + 2)]) for t, v in enumerate(vec))
    top = {'colors': inst['n'], 'facility_for_customers': inst.get('f')}.get(enc) or max(len(m) for m in inst['modes'].values())
    return all(0 <= v < top for v in vec)


class EvolveRun(Base):
    def go(self):
        import numpy as np
        sp = self.spec
        random.seed(sp['seed'])
        np.random.seed(sp['seed'])
        commercial()
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.history()
        except Boom:
            self.fail('raises', 'an injected failure came up where none was armed')
        except Exception as e:
            self.crash('history', e)

    def value(self, got):
        """what the search maximizes, of these objectives"""
        v = [got[k] * w for k, w in zip(self.objectives, self.weights)]
        return v[0] if self.single else sum(v)

    def spy(self, problem):
        run, sp, kind = self, self.spec, self.spec['kind']
        ask = problem.evaluate_from_encoding
        names = {}
        for name, d in problem.get_attribute_register().dict_attribute_to_type.items():
            names.setdefault(d['name'], []).append(name)

        def asked(vec, name):
            v = [int(i) for i in vec]
            # two encodings may be of one attribute: the narrower one if the search was told so
            encs = [e for e in names.get(name, ()) if e in run.using] or [name]
            run.event('ask', v)
            run.asked.add(name)
            if not any(fits(kind, run.inst, e, v) for e in encs):
                run.fail('no such vector', f'{v} is not a {encs[0]}')
            run.fixed_now = run.fixed(problem)
            got = ask(vec, name)
            run.h.update(repr(sorted(got)).encode())
            if [int(i) for i in vec] != v:
                run.fail('vector changed', f'evaluating {v} made {list(vec)} of it')
            x = decode(kind, run.inst, encs[0], v, run.fixed_now)
            if not run.v:
                want, _ = mv.worth(kind, run.inst, x)
                for k, w in want.items():
                    if not same(w, got[k]):
                        run.fail('wrong objectives', f'{k} of {x} ({v}) is {got[k]}, it is {w}')
            run.seen.append((x, run.value(got) if run.objectives else None, {k: got[k] for k in got}))
            return got
        problem.evaluate_from_encoding = asked
        tell = problem.evaluate

        def told(s):
            run.event('evaluate')
            return tell(s)
        problem.evaluate = told
        return problem

    def fixed(self, problem):
        if self.spec['kind'] == 'multi':
            return [list(problem.fixed_permutation) if problem.fixed_permutation is not None else None,
                    list(problem.fixed_modes) if problem.fixed_modes is not None else None]
        return [None, [1] * self.inst['n']]

    def params(self, problem, g):
        """objectives and how they are combined, as told to the search and as it should understand them"""
        sp = self.spec
        dp = im(G + 'do_problem')
        H = dp.ObjectiveHandling
        kw = {}
        default = dp.get_default_objective_setup(problem)
        if sp['objectives'] is None:
            sign = -1 if default.sense_function == dp.ModeOptim.MINIMIZATION else 1
            self.objectives, self.weights = list(default.objectives), [sign * w for w in default.weights]
            self.single = default.objective_handling == H.SINGLE
        else:
            self.objectives = list(sp['objectives'])
            kw['objectives'] = self.objectives if len(self.objectives) > 1 or sp['seed'] & 1 else self.objectives[0]
            self.weights = [1.] * len(self.objectives)
            self.single = sp['handling'] != 'AGGREGATE'
        if sp['weights'] is not None:
            self.weights = list(sp['weights'])
            kw['objective_weights'] = list(sp['weights'])
        if sp['handling'] is not None:
            kw['objective_handling'] = H[sp['handling']]
            self.single = sp['handling'] == 'SINGLE'
        self.default = default
        return kw

    def mutation(self, problem, enc):
        sp, ga = self.spec, im(G + 'ea.ga')
        if sp['mutation'] == 'own':
            lst = mv.mutations(sp['kind'], problem, problem.get_dummy_solution())
            field = problem.get_attribute_register().dict_attribute_to_type[enc]['name']
            lst = [m for m in lst if getattr(m, 'attribute', field) == field]
            return lst[sp['seed'] % len(lst)] if lst else None
        return ga.DeapMutation[MUT[form(enc)]] if sp['mutation'] == 'named' else None

    def history(self):
        sp, kind = self.spec, self.spec['kind']
        ga = im(G + 'ea.ga')
        self.asked, self.inst, self.seen, self.objectives, self.using = set(), sp['inst'], [], None, [sp['enc']] if sp['how'] != 'alternating' else []
        if kind == 'tsp' and sp['how'] == 'alternating':
            return
        self.problem = problem = self.spy(mv.build(kind, self.inst))
        self.start = [list(range(self.inst['n'])), [1] * self.inst['n']]
        if kind == 'multi':
            rng = random.Random(sp['seed'])
            self.start = mv.content(rng, kind, self.inst)
            problem.set_fixed_permutation(list(self.start[0]))
            problem.set_fixed_modes(list(self.start[1]))
        kw = self.params(problem, ga) if sp['how'] != 'pareto' else {}
        enc, n = sp['enc'], size(kind, self.inst)
        rates = dict(pop_size=sp['pop'], max_evals=sp['evals'], mut_rate=sp['mut'], crossover_rate=sp['cross'], deap_verbose=False)
        cross = lambda e: ga.DeapCrossover[CROSS[form(e)][sp['seed'] % 3]] if sp['crossover'] else None
        if sp['how'] == 'ga':
            s = ga.Ga(problem, mutation=self.mutation(problem, enc), crossover=cross(enc), encoding=enc if sp['told'] else None,
                      selection=ga.DeapSelection[sp['selection']] if sp['selection'] else None,
                      tournament_size=sp['tournament'], **kw, **rates)
            solve, most, first = s.solve, sp['pop'] + sp['evals'] // sp['pop'] * sp['pop'], sp['pop']
        elif sp['how'] == 'rcpsp':
            m, t = im(B + 'rcpsp.solver.rcpsp_ga_solver'), im(G + 'ea.ga_tools')
            p = t.ParametersGa.default_rcpsp()
            for k, v in dict(encoding=enc, crossover=cross(enc), mutation=self.mutation(problem, enc), objectives=self.objectives,
                             objective_weights=self.weights, **rates).items():
                setattr(p, k, v)
            p.objective_handling = im(G + 'do_problem').ObjectiveHandling['SINGLE' if self.single else 'AGGREGATE']
            s = m.GA_RCPSP_Solver(problem)
            solve, most, first = (lambda: s.solve(p)), sp['pop'] + sp['evals'] // sp['pop'] * sp['pop'], sp['pop']
        elif sp['how'] == 'pareto':
            return self.pareto(problem, rates, cross(enc))
        else:
            encs = list(sp['encs'])
            self.using = encs
            names = dict(encodings=encs, sub_evals=list(sp['sub']), mutations=[self.mutation(problem, e) for e in encs] if sp['mutation'] else None,
                         crossovers=[cross(e) for e in encs] if sp['crossover'] else None)
            first = None
            rounds, spent = [], 0
            while spent < sp['evals']:
                rounds.append(sp['sub'][len(rounds) % len(encs)])
                spent += rounds[-1]
            most = sum(sp['pop'] + r // sp['pop'] * sp['pop'] for r in rounds)
            if sp['solver']:
                m, t = im(B + 'rcpsp.solver.rcpsp_ga_solver'), im(G + 'ea.ga_tools')
                p = t.ParametersAltGa.default_mrcpsp()
                for k, v in dict(names, objectives=self.objectives, objective_weights=self.weights, **rates).items():
                    setattr(p, k, v)
                p.objective_handling = im(G + 'do_problem').ObjectiveHandling['SINGLE' if self.single else 'AGGREGATE']
                s = m.GA_MRCPSP_Solver(problem)
                solve = lambda: s.solve(p)
            else:
                s = im(G + 'ea.alternating_ga').AlternatingGa(problem, **names, **kw, **rates)
                solve = s.solve
        for k in range(sp['solves']):
            self.seen = []
            if k == 0 and sp['boom'] is not None:
                self.arm = sp['boom']
                try:
                    solve()
                    if self.arm is None:
                        return self.fail('failure lost', 'an evaluation failed and the search went on')
                except Boom:
                    self.faults['evaluation raises'] += 1
                    self.arm = None
                    if self.v:
                        return
                    continue
                self.arm = None
            else:
                store = solve()
                if self.v:
                    return
                self.judge(store, most, first)
            if self.v:
                return
        if sp['how'] == 'alternating' and len(self.asked) < min(len(encs), len(rounds)):
            self.fail('not alternated', f'of the encodings {encs} only {sorted(self.asked)} were searched')

    def judge(self, store, most, first):
        sp, kind = self.spec, self.spec['kind']
        self.stats['searches'] += 1
        self.stats['vectors evaluated'] += len(self.seen)
        if len(self.seen) > most:
            return self.fail('budget', f'{len(self.seen)} evaluations, {most} allowed')
        if len(self.seen) < (first or sp['pop']):
            return self.fail('budget', f'{len(self.seen)} evaluations, the first population has {sp["pop"]}')
        best = max(v for _, v, _ in self.seen)
        s = store.get_best_solution()
        x = mv.read(kind, s)
        if not mv.valid(kind, self.inst, x):
            return self.fail('invalid result', f'{x}')
        if all(x != y for y, _, _ in self.seen):
            return self.fail('invented result', f'{x} was never evaluated')
        got = self.problem.evaluate(s)
        if not same(best, self.value(got)):
            return self.fail('not the best', f'{x} with {self.value(got)}, {best} was met: {next(y for y, v, _ in self.seen if v == best)}')
        for t, f in store.list_solution_fits:
            ob = self.problem.evaluate(t)
            v = [ob[k] * w for k, w in zip(self.default.objectives, self.default.weights)]
            H = im(G + 'do_problem').ObjectiveHandling
            if self.default.objective_handling == H.MULTI_OBJ:
                ok = all(same(a, b) for a, b in zip(v, f.vector_fitness))
            else:
                ok = same(v[0] if self.default.objective_handling == H.SINGLE else sum(v), f)
            if not ok:
                return self.fail('wrong fitness', f'{mv.read(kind, t)} has {f}, objectives {ob}')
        self.stats['improved'] += int(best > max(v for _, v, _ in self.seen[:sp['pop']]))
        self.event('best', x)

    def pareto(self, problem, rates, cross):
        sp, kind = self.spec, self.spec['kind']
        nsga = im(G + 'ea.nsga')
        objs, weights = list(sp['objectives']), sp['weights'] or [1.] * len(sp['objectives'])
        rates = {**rates, 'deap_verbose': False}
        kw = dict(objectives=objs, objective_weights=list(sp['weights']) if sp['weights'] else None)
        if sp['seed'] % 5 == 0 and kind == 'knapsack_mobj':
            d = im(G + 'do_problem').get_default_objective_setup(problem)
            objs, weights, kw = list(d.objectives), list(d.weights), {}
        s = nsga.Nsga(problem, mutation=self.mutation(problem, sp['enc']), crossover=cross, encoding=sp['enc'] if sp['told'] else None, **kw, **rates)
        for k in range(sp['solves']):
            self.seen = []
            if k == 0 and sp['boom'] is not None:
                self.arm = sp['boom']
            try:
                store = s.solve()
            except Boom:
                self.faults['evaluation raises'] += 1
                self.arm = None
                continue
            if k == 0 and sp['boom'] is not None and self.arm is None:
                return self.fail('failure lost', 'an evaluation failed and the search went on')
            self.arm = None
            if self.v:
                return
            self.stats['searches'] += 1
            if len(self.seen) > sp['pop'] * max(1, sp['evals'] // sp['pop']):
                return self.fail('budget', f'{len(self.seen)} evaluations')
            if len(store.list_solution_fits) != sp['pop']:
                return self.fail('population', f'{len(store.list_solution_fits)} results')
            for t, f in store.list_solution_fits:
                x = mv.read(kind, t)
                if all(x != y for y, _, _ in self.seen):
                    return self.fail('invented result', f'{x} was never evaluated')
                ob = self.problem.evaluate(t)
                if not all(same(ob[o] * w, v) for o, w, v in zip(objs, weights, f.vector_fitness)) or len(f.vector_fitness) != len(objs):
                    return self.fail('wrong fitness', f'{x} has {f.vector_fitness}, objectives {ob}, weights {weights}')
            # somebody who is better in everything than all results was not lost
            for x, _, ob in self.seen:
                v = [ob[o] * w for o, w in zip(objs, weights)]
                if all(all(a > b + 1e-9 for a, b in zip(v, f.vector_fitness)) for _, f in store.list_solution_fits):
                    return self.fail('front lost', f'{x} with {v} is better than every result')
            self.event('front', len(store.list_solution_fits))


class Evolve(Harness):
    runs = {'quick': 4000, 'thorough': 80000}
    rule = ('every run is an evolutionary search (single objective, pareto, alternating encodings, scheduling solvers) with generated '
            'parameters on a generated problem, possibly after one that failed; the seed decides the problem, all parameters and every '
            'random choice inside')
    real = ['genetic searches, problems, solutions, mutations, result storages, the deap library']
    stub = ['random generators seeded; failures injected into evaluate', 'the commercial solver imported beside the scheduling solvers: its name only']
    assumptions = ['vectors of at least two elements (the operators of deap need them)', 'selections that need positive fitness are not used']

    def gen(self, rng, tier):
        how = rng.choice(['ga'] * 5 + ['pareto', 'pareto', 'rcpsp', 'alternating', 'alternating'])
        while True:
            kind = rng.choice({'rcpsp': ['single', 'calendar'], 'alternating': ['multi'],
                               'pareto': ['knapsack', 'knapsack_mobj', 'knapsack_mobj', 'coloring', 'facility']}.get(how, sorted(ENCODINGS)))
            inst = mv.gen_instance(rng, kind)
            if kind == 'tsp':
                inst['numba'] = False
            if size(kind, inst) >= 2:
                break
        enc = rng.choice(ENCODINGS[kind])
        objs = OBJECTIVES.get(kind, ['makespan', 'mean_resource_reserve'])
        objectives = weights = handling = None
        if how in ('pareto', 'rcpsp') or rng.random() < .7:
            handling = rng.choice(['SINGLE', 'AGGREGATE', 'AGGREGATE', None])
            k = rng.randint(1 + (how == 'pareto'), len(objs)) if handling == 'AGGREGATE' or how == 'pareto' else 1
            objectives = rng.sample(objs, k)
            if rng.random() < .8 or how == 'rcpsp':
                weights = [rng.choice([-1, -1, 1, 2, -.5, -100, 10]) for _ in objectives]
        pop = rng.choice([2, 3, 4, 6, 10, 20])
        if how == 'pareto':
            pop = rng.choice([4, 6, 8, 12])
        evals = pop * rng.choice([0, 1, 2, 4, 6]) + rng.choice([0, 1])
        spec = {'how': how, 'kind': kind, 'inst': inst, 'enc': enc, 'told': enc != ENCODINGS[kind][0] or rng.random() < .7,
                'objectives': objectives, 'weights': weights, 'handling': handling, 'pop': pop, 'evals': evals,
                'mut': rng.choice([0., .1, .5, 1.]), 'cross': rng.choice([0., .5, .9, 1.]), 'crossover': rng.random() < .6,
                'mutation': rng.choice([None, 'named', 'own', 'own']), 'tournament': rng.choice([None, .1, .5, 1.]),
                'selection': rng.choice([None, 'SEL_TOURNAMENT', 'SEL_RANDOM', 'SEL_BEST', 'SEL_WORST']),
                'solves': rng.choice([1, 1, 2]), 'boom': None, 'seed': rng.randrange(1 << 30)}
        if rng.random() < .25:
            spec['boom'], spec['solves'] = rng.choice([0, 1, 3, 8, 20]), 2
        if how == 'alternating':
            spec['encs'] = rng.choice([['rcpsp_modes_arrity_fix', 'rcpsp_permutation'], ['rcpsp_permutation', 'rcpsp_modes'],
                                       ['rcpsp_permutation', 'rcpsp_modes_arrity_fix']])
            spec['sub'] = [pop * rng.choice([1, 2, 3]) for _ in spec['encs']]
            spec['evals'] = max(1, spec['evals']) + rng.choice([0, pop * 3])
            spec['solver'] = rng.random() < .4
        return spec

    def execute(self, spec, record=False):
        r = EvolveRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, 0, r.stats['searches'] > 0, None, r.log)

    def shrink(self, spec):
        for k, v in (('solves', 1), ('boom', None), ('crossover', False), ('mutation', None), ('selection', None), ('tournament', None)):
            if spec[k] != v:
                yield {**spec, k: v}
        for k in ('pop', 'evals'):
            if spec[k] > 2:
                yield {**spec, k: spec[k] // 2 if k == 'evals' else max(2, spec[k] // 2)}


CHECKS = {'C33': Evolve()}
