"""Projects with skilled people: schedules generated for permutations, modes and priorities of workers, what is said about
schedules, moves and evolutionary searches over them, and the way from scheduling domains to solvers and back into execution."""
import contextlib
import io
import random
import warnings

from harness import rcpsp_ref as R
from harness.common import Harness, Outcome
from harness.dosched import METHODS, ModeSolver, ints, ordered
from harness.local import Base, Boom, G
from harness.moves import B, im
from harness.standins import commercial

MS = B + 'rcpsp_multiskill.'
S = 'skdecide.hub.solver.do_solver.'
MAKES = ['plain', 'encoding', 'dummy', 'kwargs']


# ------------------------------------------------------------------------------------------------ instances
def gen_instance(rng, kind, easy=False):
    inst = R.gen_instance(rng, 'multi', rng.choice([None] * 7 + [9]))
    n, H = inst['n'], inst['horizon'] + 1
    skills = ['S1', 'S2', 'S3'][:rng.choice([1, 2, 2, 3])]
    m = rng.choice([1, 2, 2, 3, 3, 4, 11])
    names = {'zero': list(range(m)), 'one': list(range(1, m + 1)), 'names': [f'w{i}' for i in range(m)], 'far': [7 * i + 3 for i in range(m)]}
    ids = names[rng.choice(list(names)) if kind == 'model' else 'names']
    rng.shuffle(ids)
    calendar = kind == 'calendar' or (kind == 'model' and rng.random() < .5)
    H = inst['horizon'] = 2 * H + (rng.choice([0, 4]) if calendar else 0) + 2
    if kind == 'model' and rng.random() < .15:
        H = inst['horizon'] = max(2, H // 3)
    workers = {}
    for w in ids:
        have = {s: rng.choice([1, 1, 2]) for s in skills if rng.random() < .6}
        workers[str(w)] = {'id': w, 'skills': have, 'calendar': [not calendar or rng.random() < .85 for _ in range(H + 1)]}
    if rng.random() < .15:      # only people
        for ms in inst['modes'].values():
            for d in ms.values():
                for r in inst['ren'] + inst['non']:
                    del d[r]
        inst.update(cap={}, ren=[], non=[])
    inst['mult'] = rng.choice([1, 1, 2]) if kind == 'model' else 1
    inst['cap'] = {r: [rng.choice([c, c, c, c, 0, max(c - 1, 0)]) if calendar and r in inst['ren'] and rng.random() < .5 else c
                       for _ in range(H * inst['mult'] + 1)] for r, c in inst['cap'].items()}
    inst['one'] = kind == 'model' and rng.random() < .25
    for t, ms in inst['modes'].items():
        for d in ms.values():
            for s in skills:
                if not d['duration']:       # nobody is needed for a milestone
                    need = 0
                else:
                    most = [w['skills'].get(s, 0) for w in workers.values()]
                    most = max(most) if inst['one'] else sum(most)
                    need = rng.choice([0, 0, 1, rng.randint(0, most), rng.randint(0, 3)])
                    if easy or rng.random() < .8:
                        need = min(need, most)
                if need or rng.random() < .5:
                    d[s] = need
    inst.update(skills=skills, workers=workers, calendar=calendar, numpy=kind == 'model' and rng.random() < .2, kind_=kind)
    return inst


def build(inst, variant=True):
    import numpy as np
    m = im(MS + 'rcpsp_multiskill')
    people = {w['id']: m.Employee({s: m.SkillDetail(v, 0, 0) for s, v in w['skills'].items()}, list(w['calendar'])) for w in inst['workers'].values()}
    cls = m.MS_RCPSPModel_Variant if variant else m.MS_RCPSPModel
    return cls(skills_set=set(inst['skills']), resources_set=set(inst['ren'] + inst['non']), non_renewable_resources=set(inst['non']),
               resources_availability={r: np.array(c) if inst['numpy'] else list(c) for r, c in inst['cap'].items()}, employees=people,
               employees_availability=[sum(w['calendar'][t] for w in inst['workers'].values()) for t in range(inst['horizon'] + 1)],
               mode_details=ints(inst), successors={int(t): list(us) for t, us in inst['succ'].items()}, horizon=inst['horizon'],
               horizon_multiplier=inst['mult'], one_unit_per_task_max=inst['one'])


def domain_of(inst):
    d = im('skdecide.hub.domain.rcpsp.rcpsp_sk')
    cls = d.MSRCPSPCalendar if inst['calendar'] else d.MSRCPSP
    H = inst['horizon']
    people = {w['id']: [int(x) for x in w['calendar']] if inst['calendar'] else 1 for w in inst['workers'].values()}
    return cls(skills_names=list(inst['skills']), resource_unit_names=list(people), resource_type_names=inst['ren'] + inst['non'],
               resource_skills={**{r: {} for r in inst['ren'] + inst['non']}, **{w['id']: dict(w['skills']) for w in inst['workers'].values()}},
               task_ids=sorted(ints(inst)), tasks_mode=ints(inst), successors={int(t): list(us) for t, us in inst['succ'].items()},
               max_horizon=H, resource_availability={**{r: list(c) if inst['calendar'] else c[0] for r, c in inst['cap'].items()}, **people},
               resource_renewable={**{r: r in inst['ren'] for r in inst['ren'] + inst['non']}, **{w: True for w in people}})


# ------------------------------------------------------------------------------------------------ reference
def needs(inst, d):
    return {s: d[s] for s in inst['skills'] if d.get(s, 0) > 0}


def sgs(inst, perm, modes, workers):
    """tasks in the order of the permutation as precedences allow, each as early as resources and people do, with the first
    people of its list who contribute; (start, usage), or None if it does not end before the horizon"""
    n, H = inst['n'], inst['horizon']
    people = {w['id']: w for w in inst['workers'].values()}
    for r in inst['non']:
        if sum(R.mode_of(inst, modes, t)[r] for t in range(1, n + 3)) > inst['cap'][r][0]:
            return None
    left = {r: list(inst['cap'][r]) for r in inst['ren']}
    free = {w: list(p['calendar']) for w, p in people.items()}
    pred = {t: {int(p) for p, us in inst['succ'].items() if t in us} for t in range(1, n + 3)}
    todo, start, end, usage = [1] + [x + 2 for x in perm] + [n + 2], {}, {}, {}
    while todo:
        t = next(t for t in todo if not pred[t] & set(todo))
        d = R.mode_of(inst, modes, t)
        s = max([end[p] for p in pred[t]], default=0)
        want = needs(inst, d)
        while True:
            if s + d['duration'] >= H:
                return None
            span = range(s, s + d['duration'])
            if all(left[r][u] >= d[r] for r in left for u in span):
                there = [w for w in (workers[t - 2] if want else []) if all(free[w][u] for u in span) and any(people[w]['skills'].get(k, 0) for k in want)]
                if inst['one']:
                    there = [w for w in there if all(people[w]['skills'].get(k, 0) >= q for k, q in want.items())][:1]
                if all(sum(people[w]['skills'].get(k, 0) for w in there) >= q for k, q in want.items()):
                    break
            s += 1
        team = []
        for w in there:
            if all(sum(people[v]['skills'].get(k, 0) for v in team) >= q for k, q in want.items()):
                break
            team.append(w)
        for u in span:
            for r in left:
                left[r][u] -= d[r]
            for w in team:
                free[w][u] = False
        if want:
            usage[t] = {w: sorted(k for k in want if k in people[w]['skills']) for w in team}
        start[t], end[t] = s, s + d['duration']
        todo.remove(t)
    return start, usage


def faults_of(inst, start, modes, usage):
    """what is wrong with a schedule and its people; modes by task"""
    n = inst['n']
    people = {w['id']: w for w in inst['workers'].values()}
    if any(str(m) not in inst['modes'][str(t)] for t, m in modes.items()):
        return f'modes {modes}'
    bad = R.faults_of({**inst, 'cap': {r: c[0] if r in inst['non'] else c for r, c in inst['cap'].items()}}, start, [modes[t] for t in range(2, n + 2)])
    if bad:
        return bad
    dur = {t: inst['modes'][str(t)][str(modes[t])]['duration'] for t in start}
    for t in start:
        want = needs(inst, inst['modes'][str(t)][str(modes[t])])
        team = usage.get(t, {})
        for w, ks in team.items():
            if w not in people or any(k not in people[w]['skills'] for k in ks):
                return f'{w} does not know {ks}'
            if any(u >= len(people[w]['calendar']) or not people[w]['calendar'][u] for u in range(start[t], start[t] + dur[t])):
                return f'{w} is not there for {t}'
            if any(w in usage.get(u, {}) and start[u] < start[t] + dur[t] and start[t] < start[u] + dur[u] for u in start if u != t):
                return f'{w} does more than {t} at a time'
        for k, q in want.items():
            if sum(people[w]['skills'][k] for w, ks in team.items() if k in ks) < q:
                return f'{k} is missing for {t}'
    return None


def look(s):
    return ({t: e['start_time'] for t, e in s.schedule.items()}, {t: e['end_time'] for t, e in s.schedule.items()}, dict(s.modes),
            {t: {w: sorted(ks) for w, ks in u.items()} for t, u in s.employee_usage.items()})


# ------------------------------------------------------------------------------------------------ runs
class SkillRun(Base):
    def go(self):
        import numpy as np
        sp = self.spec
        random.seed(sp['seed'])
        np.random.seed(sp['seed'])
        commercial()
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                pile = im(B + 'rcpsp.solver.rcpsp_pile')
                real, pile.CP_MRCPSP_MZN_MODES = pile.CP_MRCPSP_MZN_MODES, ModeSolver
                try:
                    with ordered(im(B + 'rcpsp.solver.ls_solver')):
                        getattr(self, sp['how'])()
                finally:
                    pile.CP_MRCPSP_MZN_MODES = real
        except Boom:
            self.fail('raises', 'an injected failure came up where none was armed')
        except Exception as e:
            self.crash(sp['how'], e)

    # -- solutions
    def vectors(self, rng):
        inst = self.inst
        perm = rng.sample(range(inst['n']), inst['n'])
        modes = [rng.choice([int(m) for m in inst['modes'][str(t)]] + [3] * (rng.random() < .1)) for t in range(2, inst['n'] + 2)]
        ids = [w['id'] for w in inst['workers'].values()]
        return perm, modes, [rng.sample(ids, len(ids)) for _ in perm]

    def make(self, how, vec, problem, rng):
        """a solution, or what an encoding is said to be worth, with the vectors it stands for"""
        m, inst = self.m, self.inst
        perm, modes, workers = vec
        if how == 'dummy':
            ids = [w['id'] for w in inst['workers'].values()]
            return problem.get_dummy_solution(), (list(range(inst['n'])), [1] * inst['n'], [list(ids) for _ in perm])
        if how == 'plain':
            return m.MS_RCPSPSolution_Variant(problem=problem, priority_list_task=list(perm), modes_vector=list(modes),
                                              priority_worker_per_task=[list(w) for w in workers]), vec
        problem.set_fixed_modes(list(modes))
        problem.set_fixed_task_permutation(list(perm))
        problem.set_fixed_priority_worker_per_task([list(w) for w in workers])
        enc = rng.choice(['priority_list_task', 'modes_vector', 'modes_vector_from0', 'priority_worker_per_task'])
        p2, m2, _ = self.vectors(rng)
        ids = [w['id'] for w in inst['workers'].values()]
        flat = rng.sample(range(len(ids) * inst['n']), len(ids) * inst['n'])
        val = {'priority_list_task': p2, 'modes_vector': m2, 'modes_vector_from0': [x - 1 for x in m2], 'priority_worker_per_task': flat}[enc]
        want = (p2 if enc == 'priority_list_task' else perm, m2 if enc.startswith('modes') else modes,
                None if enc == 'priority_worker_per_task' else workers)
        given = list(val)
        if how == 'kwargs':
            out = problem.build_solution_from_encoding(val, enc)
        else:
            out = problem.evaluate_from_encoding(val, enc)
        if val != given:
            self.fail('vector changed', f'{enc} {given} became {val}')
        return out, want

    def direct(self):
        sp = self.spec
        self.m = im(MS + 'rcpsp_multiskill')
        inst = self.inst = sp['inst']
        rng = random.Random(sp['seed'] ^ 77)
        problem = build(inst)
        if sp['through'] == 'plain':
            problem = build(inst, False)
            if sp['seed'] & 1:
                problem = problem.copy()
            problem = problem.to_variant_model()
        elif sp['through'] == 'copy':
            problem = problem.copy()
        for k, (how, then) in enumerate(sp['ops']):
            self.n = k
            vec = self.vectors(rng)
            s, want = self.make(how, vec, problem, rng)
            if self.v:
                return
            self.event(how)
            if how == 'encoding':
                if want[2] is not None:
                    ref = sgs(inst, *want)
                    span = s['makespan']
                    if (span != ref[0][inst['n'] + 2]) if ref else span < inst['horizon']:
                        return self.fail('wrong makespan', f'{want} is said to take {span}, {ref and ref[0]}')
                continue
            self.check(problem, s, want)
            for op in then:
                if self.v:
                    return
                s, want = self.op(op, problem, s, want, rng)
            if self.v:
                return

    def check(self, problem, s, want, exact=True):
        inst, n = self.inst, self.inst['n']
        self.stats['schedules'] += 1
        if want[2] is None:         # the order of people an encoding stands for is any, but all of them
            ids = sorted(str(w['id']) for w in inst['workers'].values())
            if any(sorted(map(str, l)) != ids for l in s.priority_worker_per_task):
                return self.fail('wrong people', f'{s.priority_worker_per_task} are not orders of {ids}')
            want = (want[0], want[1], [list(l) for l in s.priority_worker_per_task])
        ref = sgs(inst, *want)
        span = problem.evaluate(s)['makespan']
        ok = problem.satisfy(s)
        self.event('span', span, ok)
        if ref is None:
            self.stats['infeasible'] += 1
            if ok or span < inst['horizon']:
                return self.fail('wrong verdict', f'{want} has no schedule; makespan {span}, satisfied: {ok}')
            return
        start, end, modes, usage = look(s)
        modes_ = {t: modes.get(t) for t in start}
        bad = faults_of(inst, start, modes_, usage)
        if bad:
            return self.fail('bad schedule', f'{want}: {bad}')
        if start != ref[0] or usage != ref[1]:
            return self.fail('other schedule', f'{want}: {start} with {usage}, {ref[0]} with {ref[1]} is the one of the priorities')
        if span != start[n + 2] or not ok:
            return self.fail('wrong verdict', f'{want}: done at {start[n + 2]}, makespan {span}, satisfied: {ok}')
        if any(end[t] - start[t] != R.mode_of(inst, want[1], t)['duration'] for t in start):
            return self.fail('bad schedule', f'{want}: ends {end}')
        self.event('schedule', sorted(start.items()))

    def op(self, op, problem, s, want, rng):
        m, inst, n = self.m, self.inst, self.inst['n']
        if op == 'copy':
            c = s.copy()
            before = look(s) if s.schedule else None
            self.check(problem, c, want)
            if not self.v and n + 1 > 1:
                c.schedule[1]['start_time'] = -5
                if c.modes_vector:
                    c.modes_vector[0] = 77
                c.priority_list_task.reverse()
                for l in c.priority_worker_per_task:
                    l.reverse()
                for u in c.employee_usage.values():
                    u.clear()
            if look(s) != before:
                self.fail('copy shares', f'{before} became {look(s)}')
            if not self.v:
                self.check(problem, s, want)
        elif op == 'again':
            self.check(problem, s, want)
        elif op == 'damage':
            ref = sgs(inst, *want) if want[2] is not None else None
            if ref is None or not problem.satisfy(s):
                return s, want
            self.damage(problem, s, rng)
        elif op == 'variant':
            ref = problem.satisfy(s)
            if not ref:
                return s, want
            v = m.schedule_solution_to_variant(s)
            start, _, modes, usage = look(v)
            got = problem.satisfy(v)
            if v.problem is not problem or sorted(v.priority_list_task) != list(range(n)):
                self.fail('bad variant', f'{v.priority_list_task}')
            if got != (set(start) == set(range(1, n + 3)) and not faults_of(inst, start, {t: modes.get(t) for t in start}, usage)):
                self.fail('bad variant', f'{start} {usage}, satisfied: {got}')
            if not self.v:
                w = sgs(inst, list(v.priority_list_task), list(v.modes_vector), [list(x) for x in v.priority_worker_per_task])
                if w is not None and w[0] != start:
                    self.fail('bad variant', f'{start}, {w[0]} expected')
            if [modes.get(t) for t in range(2, n + 2)] != [look(s)[2][t] for t in range(2, n + 2)] and got:
                self.fail('bad variant', f'modes {modes}, {look(s)[2]} before')
        elif op == 'shift':
            if problem.satisfy(s):
                self.shifted(problem, s)
        elif op == 'representative':
            self.representative(problem)
        return s, want

    def damage(self, problem, s, rng):
        """a schedule somebody else wrote: is it one of this project?"""
        inst, n = self.inst, self.inst['n']
        start, end, modes, usage = look(s)
        start, usage = dict(start), {t: {w: set(k) for w, k in u.items()} for t, u in usage.items()}
        t = rng.randint(2, n + 1)
        what = rng.choice(['shift', 'shift', 'shift', 'person', 'mode', 'skill', 'lost', 'late'])
        ids = [w['id'] for w in inst['workers'].values()]
        if what == 'shift':
            start[t] = max(0, start[t] + rng.choice([-3, -2, -1, 1, 2]))
        elif what == 'late':
            start[n + 2] = inst['horizon'] + rng.choice([-1, 0, 5])
        elif what == 'person' and t in usage:
            w = rng.choice(sorted(usage[t], key=str))
            usage[t][rng.choice(ids)] = usage[t].pop(w)
        elif what == 'mode':
            modes[t] = int(rng.choice(sorted(inst['modes'][str(t)])))
        elif what == 'skill' and t in usage:
            usage[t][rng.choice(ids)] = {rng.choice(inst['skills'])}
        elif what == 'lost' and t in usage:
            if rng.random() < .5:
                del usage[t]
            else:
                del usage[t][rng.choice(sorted(usage[t], key=str))]
        dur = {u: inst['modes'][str(u)][str(modes[u])]['duration'] for u in start}
        d = self.m.MS_RCPSPSolution(problem=problem, modes=modes, schedule={u: {'start_time': x, 'end_time': x + dur[u]} for u, x in start.items()},
                                    employee_usage=usage)
        bad = faults_of(inst, start, modes, {u: {w: sorted(k) for w, k in x.items()} for u, x in usage.items()})
        got = problem.satisfy(d)
        self.stats['strange schedules'] += 1
        self.stats['strange and good'] += int(bad is None)
        self.event('damage', what, got)
        if got != (bad is None):
            self.fail('wrong verdict', f'{what}: {start} {modes} {usage} satisfies: {got}; {bad}')
        elif got and problem.evaluate(d)['makespan'] != start[n + 2]:
            self.fail('wrong makespan', f'{start}')

    def shifted(self, problem, s):
        """tasks moved to the left afterwards"""
        post = im(MS + 'solvers.lns_post_process_rcpsp')
        rs = im(G + 'result_storage.result_storage').ResultStorage
        p = post.PostProMSRCPSP(problem, None)
        before = look(s)
        store = p.build_other_solution(rs([(s, p.aggreg_from_sol(s))], mode_optim=p.params_objective_function.sense_function))
        if look(s) != before:
            return self.fail('solution changed', f'{before} became {look(s)}')
        for x, f in store.list_solution_fits:
            start, _, modes, usage = look(x)
            bad = faults_of(self.inst, start, {t: modes[t] for t in start}, usage)
            if bad:
                return self.fail('bad schedule', f'moved to the left: {bad}')
            if start[self.inst['n'] + 2] > before[0][self.inst['n'] + 2]:
                return self.fail('bad schedule', 'moved to the left, it takes longer')
            if f != -problem.evaluate(x)['makespan']:
                return self.fail('wrong fitness', f'{f}')
        self.stats['shifted'] += 1

    def representative(self, problem):
        """people as resources: what is possible with people is possible with these"""
        inst = self.inst
        r = problem.build_multimode_rcpsp_calendar_representative()
        for t, ms in ints(inst).items():
            for k, d in ms.items():
                got = r.mode_details[t][k]
                if any(got[x] != d.get(x, 0) for x in inst['ren'] + inst['non'] + inst['skills'] + ['duration']):
                    return self.fail('wrong problem', f'mode {k} of {t} is {got}')
        for s in inst['skills']:
            for t in range(min(inst['horizon'], len(r.resources[s]))):
                have = sum(w['skills'].get(s, 0) for w in inst['workers'].values() if t < len(w['calendar']) and w['calendar'][t])
                if r.resources[s][t] != have:
                    return self.fail('wrong problem', f'{r.resources[s][t]} of {s} at {t}, {have} expected')
            if len(r.resources[s]) < inst['horizon']:
                return self.fail('wrong problem', f'{s} until {len(r.resources[s])}')
        if {t: sorted(u) for t, u in r.successors.items()} != {int(t): sorted(u) for t, u in inst['succ'].items()} or r.horizon != inst['horizon']:
            return self.fail('wrong problem', 'precedences or horizon')

    # -- solvers on the problem
    def search(self):
        sp, inst = self.spec, self.spec['inst']
        self.inst = inst
        ModeSolver.now = inst
        problem = build(inst)
        for k in range(sp['solves']):
            self.n = k
            store = self.solver(problem, sp['method'])
            if not store.list_solution_fits:
                return self.fail('no result', sp['method']['how'])
            best = None
            for s, f in store.list_solution_fits:
                want = (list(s.priority_list_task), list(s.modes_vector), [list(w) for w in s.priority_worker_per_task])
                ids = sorted(str(w['id']) for w in inst['workers'].values())
                if sorted(want[0]) != list(range(inst['n'])) or any(sorted(map(str, l)) != ids for l in want[2]):
                    return self.fail('not a solution', f'{want}')
                self.check(problem, s, want)
                if self.v:
                    return
                if f != -problem.evaluate(s)['makespan']:
                    return self.fail('wrong fitness', f'{f} of {problem.evaluate(s)}')
                best = f if best is None else max(best, f)
            if best != -problem.evaluate(store.get_best_solution())['makespan']:
                return self.fail('not the best', f'{best}')
            self.stats['searches'] += 1

    def solver(self, problem, m):
        rs = im(MS + 'rcpsp_multiskill_solvers')
        if m['how'] == 'GA':
            t = im(G + 'ea.ga_tools')
            p = t.ParametersAltGa.default_msrcpsp()
            p.pop_size, p.max_evals, p.sub_evals = 4, m['iterations'], [8, 8, 8]
            cls, args = im(MS + 'solvers.ms_rcpsp_ga_solver').GA_MSRCPSP_Solver, {'parameters_ga': p}
        elif m['how'] == 'LS':
            ls = im(B + 'rcpsp.solver.ls_solver')
            cls, args = ls.LS_RCPSP_Solver, {'ls_solver': ls.LS_SOLVER[m['ls']], 'nb_iteration_max': m['iterations']}
        else:
            b = im(MS + 'solvers.solver_rcpsp_based')
            pile = im(B + 'rcpsp.solver.rcpsp_pile')
            return b.Solver_RCPSP_Based(problem, pile.PileSolverRCPSP_Calendar, greedy_choice=pile.GreedyChoice[m['choice']]).solve()
        if cls not in rs.look_for_solver(problem):
            self.fail('no solver', m['how'])
        return rs.solve(cls, problem, **args)

    # -- domains
    def domains(self):
        sp, inst = self.spec, self.spec['inst']
        self.inst = inst
        ModeSolver.now = inst
        pol = im('skdecide.hub.solver.sgs_policies.sgs_policies')
        dos = im(S + 'do_solver_scheduling')
        P = lambda name: pol.PolicyMethodParams(pol.BasePolicyMethod[name], delta_time_freedom=2, delta_index_freedom=1)
        m = sp['method']
        if m['how'] == 'GA':
            p = im(G + 'ea.ga_tools').ParametersAltGa.default_msrcpsp()
            p.pop_size, p.max_evals, p.sub_evals = 4, m['iterations'], [8, 8, 8]
            par = {'parameters_ga': p}
        else:
            par = {'ls_solver': im(B + 'rcpsp.solver.ls_solver').LS_SOLVER[m['ls']], 'nb_iteration_max': m['iterations']}
        solver = dos.DOSolver(policy_method_params=P(sp['policy']), method=dos.SolvingMethod[m['how']], dict_params=par)
        for k in range(sp['solves']):
            self.n = k
            domain = self.domain = domain_of(inst)
            solver.solve(lambda: domain)
            model, s = solver.do_domain, solver.best_solution
            self.translated(model)
            if self.v:
                return
            names = sorted(w['id'] for w in inst['workers'].values())
            named = lambda u: {t: {names[w]: k for w, k in x.items()} for t, x in u.items()}
            start, _, modes, usage = look(s)
            ok = model.satisfy(s)
            ref = sgs({**inst, 'workers': {x: {**inst['workers'][names[x]], 'id': x} for x in range(len(names))}},
                      list(s.priority_list_task), list(s.modes_vector), [list(w) for w in s.priority_worker_per_task])
            if ok != (ref is not None):
                return self.fail('wrong verdict', f'{start} satisfied: {ok}, {ref}')
            if not ok:
                self.stats['infeasible'] += 1
                continue
            bad = faults_of(inst, start, {t: modes[t] for t in start}, named(usage))
            if bad or start != ref[0]:
                return self.fail('bad schedule', f'{bad} {start} {ref[0]}')
            self.start, self.modes, self.usage = start, {t: modes[t] for t in start}, named(usage)
            self.event('schedule', sorted(start.items()))
            self.execute(solver, sp['policy'])
            for name in sp['others']:
                if not self.v:
                    self.execute(solver.compute_external_policy(P(name)), name)
            if not self.v and sp['back']:
                self.back(model)
            if self.v:
                return

    def translated(self, model):
        inst, H = self.inst, self.inst['horizon']
        names = sorted(w['id'] for w in inst['workers'].values())
        for t, ms in ints(inst).items():
            for k, d in ms.items():
                got = model.mode_details[t][k]
                if any(got.get(x, 0) != d.get(x, 0) for x in inst['ren'] + inst['non'] + inst['skills'] + ['duration']):
                    return self.fail('wrong problem', f'mode {k} of {t} is {got}')
        if len(model.employees) != len(names):
            return self.fail('wrong problem', f'{len(model.employees)} people')
        for i, w in enumerate(names):
            e, p = model.employees[i], inst['workers'][w]
            if {s: x.skill_value for s, x in e.dict_skill.items() if x.skill_value} != p['skills'] or list(e.calendar_employee)[:H] != p['calendar'][:H]:
                return self.fail('wrong problem', f'{w} is {[(s, x.skill_value) for s, x in e.dict_skill.items()]} {e.calendar_employee}')
        for r, c in inst['cap'].items():
            if list(model.resources_availability[r])[:H] != c[:H]:
                return self.fail('wrong problem', f'{r} is {model.resources_availability[r]}')
        if {s for ms in inst['modes'].values() for d in ms.values() for s in needs(inst, d)} - set(model.skills_set) or set(model.non_renewable_resources) != set(inst['non']) or set(model.resources_set) != set(inst['ren'] + inst['non']):
            return self.fail('wrong problem', f'{model.skills_set} {model.resources_set} {model.non_renewable_resources}')
        if {t: sorted(u) for t, u in model.successors.items()} != {int(t): sorted(u) for t, u in inst['succ'].items()} or model.horizon != H:
            return self.fail('wrong problem', 'precedences or horizon')

    def execute(self, policy, name):
        self.stats['executions'] += 1
        dom, inst, n = self.domain, self.inst, self.inst['n']
        obs = dom.reset()
        k, team = 0, {}
        while not dom.is_terminal(obs):
            k += 1
            if k > 20 * (n + 3) + 4 * inst['horizon']:
                return self.fail('never done', f'{name} does not finish')
            if not policy.is_policy_defined_for(obs):
                return self.fail('undefined', f'{name} is not defined at {obs.t}')
            a = policy.sample_action(obs)
            self.event('act', a.action, a.task, a.mode, a.time_progress, a.resource_unit_names)
            if a.action == im('skdecide.builders.scheduling.scheduling_domains').SchedulingActionEnum.START and a.resource_unit_names:
                team[a.task] = list(a.resource_unit_names)
            obs = dom.step(a).observation
        started = {t: d.start for t, d in obs.tasks_details.items()}
        usage = {t: {w: sorted(k for k in needs(inst, R.mode_of(inst, [self.modes[u] for u in range(2, n + 2)], t)) if k in inst['workers'][w]['skills'])
                     for w in ws} for t, ws in team.items()}
        # domains let a task start when what it needs is there, calendars may take it away later
        ref = inst
        if name != 'FOLLOW_GANTT' and inst['calendar']:
            ref = {**inst, 'cap': {r: [max(c)] * len(c) for r, c in inst['cap'].items()},
                   'workers': {w: {**p, 'calendar': [True] * len(p['calendar'])} for w, p in inst['workers'].items()}}
        bad = faults_of(ref, started, dict(obs.tasks_mode), usage)
        if bad:
            return self.fail('bad execution', f'{name}: {bad}')
        if name == 'FOLLOW_GANTT' and started != self.start:
            return self.fail('bad execution', f'{name}: started {started}, planned {self.start}')
        if dict(obs.tasks_mode) != self.modes or {t: sorted(u) for t, u in usage.items()} != {t: sorted(u) for t, u in self.usage.items()}:
            return self.fail('bad execution', f'{name}: {obs.tasks_mode} {usage}, planned {self.modes} {self.usage}')

    def back(self, model):
        """the domain made of the problem"""
        inst, H = self.inst, self.inst['horizon']
        for varying in (False, True):
            d = im(S + 'sk_to_do_binding').build_sk_domain(model, varying_ressource=varying)
            for t, us in inst['succ'].items():
                if sorted(set(d.get_successors()[int(t)])) != sorted(set(us)):
                    return self.fail('wrong domain', f'successors of {t}')
            for t, ms in ints(inst).items():
                for k, e in ms.items():
                    if d.get_task_duration(t, k) != e['duration'] or {s: v for s, v in d.get_skills_of_task(t, k).items() if v} != needs(inst, e):
                        return self.fail('wrong domain', f'{t}')
                    if any(d.get_tasks_modes()[t][k].get_resource_need_at_time(r, 0) != e[r] for r in inst['cap']):
                        return self.fail('wrong domain', f'resources of {t}')
            names = sorted(inst['workers'])
            for w, u in zip(names, sorted(d.get_resource_units_names(), key=int)):
                p = inst['workers'][w]
                if {s: v for s, v in d.get_skills_of_resource(u).items() if v} != p['skills']:
                    return self.fail('wrong domain', f'{w} has {d.get_skills_of_resource(u)}')
                if varying and [bool(d.get_quantity_resource(u, time=t)) for t in range(H)] != p['calendar'][:H]:
                    return self.fail('wrong domain', f'calendar of {w}')
            for r, c in inst['cap'].items():
                if varying and [d.get_quantity_resource(r, time=t) for t in range(H)] != c[:H]:
                    return self.fail('wrong domain', f'calendar of {r}')
                if hasattr(d, 'get_original_quantity_resource') and d.get_original_quantity_resource(r) not in (max(c), max(c[:H])) + (() if varying else (c[0],)):
                    return self.fail('wrong domain', f'{r} is {d.get_original_quantity_resource(r)} {max(c)}')
                if d.get_resource_renewability()[r] != (r in inst['ren']):
                    return self.fail('wrong domain', f'{r} renewable')


class Skills(Harness):
    runs = {'quick': 4000, 'thorough': 100000}
    rule = ('every run is a generated project with people: solutions made of vectors and handled, searches on the problem, or the way from '
            'a scheduling domain to a solver and back into its execution; the seed decides the project, vectors, operations and every random choice')
    real = ['multi-skill problems, solutions and schedule generation, genetic, local search and greedy solvers, post-processing, '
            'DOSolver and the translation between domains and problems, scheduling policies, the scheduling domains']
    stub = ['the external constraint solver that chooses modes: any feasible choice', 'random generators seeded',
            'the commercial solver imported beside the scheduling solvers: its name only']
    assumptions = ['tasks are numbered from 1, the first and the last are the start and the end of the project', 'priorities name everybody']

    def gen(self, rng, tier):
        how = rng.choice(['direct'] * 5 + ['search'] * 2 + ['domains'] * 2)
        sp = {'how': how, 'seed': rng.randrange(1 << 30)}
        if how == 'direct':
            sp['inst'] = gen_instance(rng, 'model')
            sp['through'] = rng.choice(['variant', 'variant', 'plain', 'copy'])
            sp['ops'] = [(rng.choice(MAKES), [rng.choice(['copy', 'again', 'damage', 'damage', 'damage', 'variant', 'shift', 'representative'])
                                              for _ in range(rng.choice([0, 1, 2, 3]))]) for _ in range(rng.choice([1, 2, 3]))]
            return sp
        sp['inst'] = gen_instance(rng, {'search': 'model', 'domains': rng.choice(['calendar', 'flat'])}[how], easy=rng.random() < .8)
        sp['inst']['feasible'] = [int(rng.choice(sorted(sp['inst']['modes'][str(t)]))) for t in range(2, sp['inst']['n'] + 2)]
        sp['method'] = {'how': rng.choice(['GA', 'LS', 'LS', 'BASED'] if how == 'search' else ['GA', 'LS']), 'ls': rng.choice(['SA', 'HC']),
                        'choice': rng.choice(['MOST_SUCCESSORS', 'SAMPLE_MOST_SUCCESSORS', 'FASTEST', 'TOTALLY_RANDOM']), 'iterations': rng.choice([5, 20, 40])}
        sp['solves'] = rng.choice([1, 1, 2])
        if sp['method']['how'] == 'GA' and (sp['inst']['n'] < 2):
            sp['method']['how'] = 'LS'
        if how == 'domains':
            sp['policy'] = rng.choice(METHODS + ['FOLLOW_GANTT'])
            sp['others'] = rng.sample(METHODS, rng.choice([0, 1, 2]))
            sp['back'] = rng.random() < .3
        return sp

    def execute(self, spec, record=False):
        r = SkillRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, 0,
                       r.stats['schedules'] + r.stats['executions'] > r.stats['infeasible'], None, r.log)

    def shrink(self, spec):
        if spec['how'] == 'direct':
            for i in range(len(spec['ops'])):
                if len(spec['ops']) > 1:
                    yield {**spec, 'ops': spec['ops'][:i] + spec['ops'][i + 1:]}
                h, then = spec['ops'][i]
                for j in range(len(then)):
                    yield {**spec, 'ops': spec['ops'][:i] + [(h, then[:j] + then[j + 1:])] + spec['ops'][i + 1:]}
        elif spec['solves'] > 1:
            yield {**spec, 'solves': 1}
        if spec.get('others'):
            yield {**spec, 'others': []}
        if spec['inst']['numpy']:
            yield {**spec, 'inst': {**spec['inst'], 'numpy': False}}


CHECKS = {'C35': Skills()}
