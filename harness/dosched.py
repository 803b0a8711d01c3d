"""Schedules end to end: a scheduling domain is handed to the real discrete optimization solvers (greedy, genetic, local
search); what they return is checked against the project itself, and the policy made of it is executed in the real domain."""
import contextlib
import io
import random
import types
import warnings

from harness import rcpsp_ref as R
from harness.common import Harness, Outcome
from harness.local import Base, Boom, G
from harness.moves import B, im, same
from harness.standins import commercial

METHODS = ['SGS_READY', 'SGS_STRICT', 'SGS_PRECEDENCE', 'SGS_TIME_FREEDOM', 'SGS_INDEX_FREEDOM', 'FOLLOW_GANTT']
GREEDY = ['MOST_SUCCESSORS', 'SAMPLE_MOST_SUCCESSORS', 'FASTEST', 'TOTALLY_RANDOM']
S = 'skdecide.hub.solver.do_solver.'


def project(rng, kind):
    """a project that can be done in its horizon"""
    while True:
        inst = R.gen_instance(rng, 'multi' if kind.startswith('multi') else 'single', rng.choice([None] * 7 + [9, 11]))
        total = sum(max(m['duration'] for m in ms.values()) for ms in inst['modes'].values())
        inst['horizon'] = total + 2
        modes = [rng.choice(sorted(inst['modes'][str(t)])) for t in range(2, inst['n'] + 2)]
        inst['feasible'] = [int(m) for m in modes]
        for r in inst['non']:
            inst['cap'][r] = max(inst['cap'][r], sum(R.mode_of(inst, modes, t)[r] for t in range(1, inst['n'] + 3)))
        if kind.endswith('calendar'):
            k = rng.choice([0, 2, 5, 10])
            inst['horizon'] = 2 * total + k + 4
            inst['cap'] = {r: [rng.choice([c, c, c, 0, max(c - 1, 0)]) for _ in range(k)] + [c] * (inst['horizon'] + 1 - k)
                           if r in inst['ren'] else [c] * (inst['horizon'] + 1) for r, c in inst['cap'].items()}
        inst['possible'] = rng.random() < .9
        if not inst['possible']:    # somebody needs more than there ever is for long enough
            t, r = str(rng.randint(2, inst['n'] + 1)), rng.choice(inst['ren'])
            for d in inst['modes'][t].values():
                d['duration'] = max(1, d['duration'])
                d[r] = 1 + (max(inst['cap'][r]) if isinstance(inst['cap'][r], list) else inst['cap'][r])
        inst['kind'] = 'calendar' if kind.endswith('calendar') else kind
        inst['domain'] = kind
        if rng.random() < .3:       # what is not needed may not be mentioned
            for ms in inst['modes'].values():
                for d in ms.values():
                    for r in [r for r, q in d.items() if r != 'duration' and q == 0]:
                        if rng.random() < .7:
                            del d[r]
        return inst


def full(inst):
    """the same with every need, and non-renewables as numbers"""
    return {**inst, 'modes': {t: {m: {**{r: 0 for r in inst['ren'] + inst['non']}, **d} for m, d in ms.items()}
                              for t, ms in inst['modes'].items()},
            'cap': {r: c[0] if r in inst['non'] and isinstance(c, list) else c for r, c in inst['cap'].items()}}


def ints(inst):
    return {int(t): {int(m): dict(d) for m, d in ms.items()} for t, ms in inst['modes'].items()}


def own(inst, base):
    """a domain written by a user"""
    sd, m = im('skdecide.builders.scheduling.scheduling_domains'), im('skdecide.builders.scheduling.modes')

    class D(getattr(sd, base)):
        pass

    class Mine(D):
        def __init__(self):
            self.modes = {t: m.ConstantModeConsumption({r: q for r, q in ms[1].items() if r != 'duration'}) for t, ms in ints(inst).items()}
            self.initialize_domain()

        def _get_tasks_mode(self):
            return self.modes

        def _get_resource_renewability(self):
            return {r: r in inst['ren'] for r in inst['ren'] + inst['non']}

        def _get_max_horizon(self):
            return inst['horizon']

        def _get_successors(self):
            return {int(t): list(us) for t, us in inst['succ'].items()}

        def _get_tasks_ids(self):
            return sorted(self.modes)

        def _get_task_duration(self, task, mode=1, progress_from=0.):
            return inst['modes'][str(task)]['1']['duration']

        def _get_resource_types_names(self):
            return inst['ren'] + inst['non']

        def _get_objectives(self):
            return [sd.SchedulingObjectiveEnum.MAKESPAN]

        def _get_original_quantity_resource(self, resource, **kw):
            c = inst['cap'][resource]
            return max(c) if isinstance(c, list) else c

        def _get_quantity_resource(self, resource, time, **kw):
            c = inst['cap'][resource]
            return c[time] if isinstance(c, list) else c
    return Mine()


def build(inst):
    if inst['own']:
        return own(inst, {'single': 'SingleModeRCPSP', 'calendar': 'SingleModeRCPSPCalendar'}[inst['domain']])
    d = im('skdecide.hub.domain.rcpsp.rcpsp_sk')
    cls = {'single': d.RCPSP, 'multi': d.MRCPSP, 'calendar': d.RCPSPCalendar, 'multicalendar': d.MRCPSPCalendar}[inst['domain']]
    return cls(resource_names=inst['ren'] + inst['non'], task_ids=sorted(ints(inst)), tasks_mode=ints(inst),
               successors={int(t): list(us) for t, us in inst['succ'].items()}, max_horizon=inst['horizon'],
               resource_availability={r: list(c) if isinstance(c, list) else c for r, c in inst['cap'].items()},
               resource_renewable={r: r in inst['ren'] for r in inst['ren'] + inst['non']})


class ModeSolver:
    """stands in for the external constraint solver that chooses modes: any choice the non-renewable resources allow"""
    now = None

    def __init__(self, model, **kw):
        pass

    def solve(self, **kw):
        return [[1] + list(ModeSolver.now['feasible']) + [1]]


@contextlib.contextmanager
def ordered(module):
    """the catalogue of moves is made of sets, which are iterated in the order of hashes: take them in the order of names"""
    real = getattr(module, 'get_available_mutations', None)

    def listed(*a, **k):
        d, ms = real(*a, **k)
        return d, sorted(ms, key=lambda m: (m[0].__name__, sorted((n, getattr(v, '__name__', str(v))) for n, v in m[1].items())))
    if real is not None:
        module.get_available_mutations = listed
    try:
        yield
    finally:
        if real is not None:
            module.get_available_mutations = real


class SchedRun(Base):
    def go(self):
        import numpy as np
        sp = self.spec
        random.seed(sp['seed'])
        np.random.seed(sp['seed'])
        commercial()
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                pile = im(B + 'rcpsp.solver.rcpsp_pile')
                self.dos, self.bind = im(S + 'do_solver_scheduling'), im(S + 'sk_to_do_binding')
                real, make = pile.CP_MRCPSP_MZN_MODES, self.dos.build_do_domain
                pile.CP_MRCPSP_MZN_MODES, self.dos.build_do_domain = ModeSolver, lambda d: self.spy(make(d))
                try:
                    with ordered(im(B + 'rcpsp.solver.ls_solver')):
                        self.history()
                finally:
                    pile.CP_MRCPSP_MZN_MODES, self.dos.build_do_domain = real, make
        except Boom:
            self.fail('raises', 'an injected failure came up where none was armed')
        except Exception as e:
            self.crash('history', e)

    def spy(self, problem):
        tell = problem.evaluate

        def told(s):
            self.event('evaluate')
            return tell(s)
        problem.evaluate = told
        return problem

    def params(self, m):
        if m['how'] == 'PILE':
            return {'greedy_choice': im(B + 'rcpsp.solver.rcpsp_pile').GreedyChoice[m['choice']]} if m['choice'] else None
        if m['how'] == 'LS':
            return {**({'ls_solver': im(B + 'rcpsp.solver.ls_solver').LS_SOLVER[m['ls']]} if m['ls'] else {}), 'nb_iteration_max': m['iterations']}
        t = im(B + 'generic_tools.ea.ga_tools')
        p = t.ParametersAltGa.default_mrcpsp() if m['alt'] else t.ParametersGa.default_rcpsp()
        p.pop_size, p.max_evals, p.deap_verbose = 4, m['iterations'], False
        if m['alt']:
            p.sub_evals = [8, 8]
        return {'parameters_ga': p}

    def history(self):
        sp = self.spec
        m = sp['method']
        # a single mode hub domain is one of several modes for the solvers
        m = {**m, 'alt': m['how'] == 'GA' and not all(i['own'] for i in sp['insts'])}
        pol = im('skdecide.hub.solver.sgs_policies.sgs_policies')
        P = lambda name: pol.PolicyMethodParams(pol.BasePolicyMethod[name], delta_time_freedom=2, delta_index_freedom=1)
        given = self.params(m)
        kept = dict(given) if given is not None else None
        solver = self.dos.DOSolver(policy_method_params=P(sp['policy']), method=self.dos.SolvingMethod[m['how']], dict_params=given)
        for k, i in enumerate(sp['ops']):
            self.n = k
            inst = self.inst = sp['insts'][i]
            self.ref = full(inst)
            ModeSolver.now = inst
            domain = self.domain = build(inst)
            if k == 0 and sp['boom'] is not None:
                self.arm = sp['boom']
                try:
                    solver.solve(lambda: domain)
                    armed = self.arm
                    self.arm = None
                    if armed is None:
                        return self.fail('failure lost', 'an evaluation failed and the solver went on')
                except Boom:
                    self.faults['evaluation raises'] += 1
                    self.arm = None
                continue
            solver.solve(lambda: domain)
            if given is not None and set(given) != set(kept):
                return self.fail('parameters changed', f'{sorted(given)} were {sorted(kept)}')
            self.translated(solver.do_domain)
            if self.v:
                return
            self.judge(solver.best_solution, solver.do_domain, m)
            if self.v:
                return
            if not self.feasible:
                continue
            self.execute(solver, sp['policy'], 'solver')
            for name in sp['others']:
                if not self.v:
                    self.execute(solver.compute_external_policy(P(name)), name, 'policy')
            if not self.v and sp['direct']:
                self.direct(solver.do_domain)
            if not self.v and sp['back']:
                self.back(solver.do_domain)
            if self.v:
                return

    def translated(self, model):
        """the problem of the solvers is the domain's"""
        inst, ref = self.inst, self.ref
        if set(model.mode_details) != {int(t) for t in ref['modes']}:
            return self.fail('wrong problem', f'tasks {sorted(model.mode_details)}')
        for t, ms in ints(ref).items():
            got = model.mode_details[t]
            if set(got) != set(ms):
                return self.fail('wrong problem', f'modes {sorted(got)} of {t}')
            for k, d in ms.items():
                if {r: got[k].get(r, 0) for r in d} != d:
                    return self.fail('wrong problem', f'mode {k} of {t} is {got[k]}, {d} expected')
        for t, us in inst['succ'].items():
            if sorted(set(model.successors[int(t)])) != sorted(set(us)):
                return self.fail('wrong problem', f'successors {model.successors[int(t)]} of {t}, {us} expected')
        for r, c in inst['cap'].items():
            got = model.resources[r]
            k = len(got) if hasattr(got, '__len__') else None
            if (isinstance(c, list) and (k is None or k < inst['horizon'] or list(got)[:inst['horizon']] != c[:inst['horizon']])) or (not isinstance(c, list) and got != c):
                return self.fail('wrong problem', f'{r} is {got}, {c} expected')
        if sorted(model.non_renewable_resources) != sorted(inst['non']):
            return self.fail('wrong problem', f'non-renewable {model.non_renewable_resources}')

    def judge(self, s, model, m):
        self.stats['schedules'] += 1
        self.feasible = bool(s.rcpsp_schedule_feasible)
        if not self.inst['possible']:
            self.stats['impossible'] += 1
            if self.feasible or model.satisfy(s):
                return self.fail('wrong verdict', f'an impossible project has the schedule {s.rcpsp_schedule}')
            return
        modes = [int(x) for x in s.rcpsp_modes]
        if not self.feasible:
            self.stats['infeasible'] += 1
            if model.satisfy(s):
                return self.fail('wrong verdict', 'no schedule, and satisfied')
            if m['how'] == 'PILE':
                return self.fail('feasible missed', 'the greedy solver found no schedule')
            if R.sgs(self.ref, [int(x) for x in s.rcpsp_permutation], modes) is not None:
                return self.fail('feasible missed', f'{s.rcpsp_permutation} {modes} has a schedule')
            return
        start = {t: e['start_time'] for t, e in s.rcpsp_schedule.items()}
        bad = R.faults_of(self.ref, start, modes)
        if bad:
            return self.fail('bad schedule', bad)
        for t, e in s.rcpsp_schedule.items():
            if e['end_time'] - e['start_time'] != R.mode_of(self.ref, modes, t)['duration']:
                return self.fail('bad schedule', f'{t} lasts {e["end_time"] - e["start_time"]}')
        n = self.inst['n']
        if sorted(int(x) for x in s.rcpsp_permutation) != list(range(n)):
            return self.fail('bad schedule', f'permutation {list(s.rcpsp_permutation)}')
        if m['how'] == 'PILE' and self.inst['non'] and modes != self.inst['feasible']:
            return self.fail('bad schedule', f'modes {modes}, {self.inst["feasible"]} were chosen')
        span = model.evaluate(s)['makespan']
        if span != start[n + 2] or not model.satisfy(s):
            return self.fail('wrong verdict', f'makespan {span} of {start}, satisfied: {model.satisfy(s)}')
        self.start, self.modes = start, modes
        self.event('schedule', sorted(start.items()))

    def execute(self, policy, name, who):
        """the domain does what the schedule says"""
        self.stats['executions'] += 1
        dom, inst, n = self.domain, self.inst, self.inst['n']
        obs = dom.reset()
        k = 0
        while not dom.is_terminal(obs):
            k += 1
            if k > 20 * (n + 3) + 4 * inst['horizon']:
                return self.fail('never done', f'{name} does not finish')
            if not policy.is_policy_defined_for(obs):
                return self.fail('undefined', f'{name} is not defined at {obs.t}')
            a = policy.sample_action(obs)
            self.event('act', a.action, a.task, a.mode, a.time_progress)
            obs = dom.step(a).observation
        started = {t: d.start for t, d in obs.tasks_details.items()}
        # domains let a task start when what it needs is there, calendars may take it away later
        ref = {**self.ref, 'cap': {r: max(c) if isinstance(c, list) and name != 'FOLLOW_GANTT' else c for r, c in self.ref['cap'].items()}}
        bad = R.faults_of(ref, started, self.modes)
        if bad:
            return self.fail('bad execution', f'{name}: {bad}')
        if name == 'FOLLOW_GANTT' and started != self.start:
            return self.fail('bad execution', f'{name}: started {started}, planned {self.start}')
        if {t: m for t, m in obs.tasks_mode.items()} != {t: 1 if t in (1, n + 2) else self.modes[t - 2] for t in started}:
            return self.fail('bad execution', f'{name}: modes {obs.tasks_mode}, planned {self.modes}')
        s = self.bind.from_last_state_to_solution(obs, dom)
        if {t: e['start_time'] for t, e in s.rcpsp_schedule.items()} != started or list(s.rcpsp_modes) != self.modes:
            return self.fail('bad report', f'{s.rcpsp_schedule} {s.rcpsp_modes} was done: {started} {self.modes}')
        got = s.problem.evaluate(s)['makespan']
        if got != started[n + 2] or s.problem.satisfy(s) != (R.faults_of(self.ref, started, self.modes) is None):
            return self.fail('bad report', f'makespan {got}, done at {started[n + 2]}')

    def direct(self, model):
        """the greedy solvers called by hand"""
        rs, pile = im(B + 'rcpsp.rcpsp_solvers'), im(B + 'rcpsp.solver.rcpsp_pile')
        which = [c for c in rs.look_for_solver(model) if c in (pile.PileSolverRCPSP, pile.PileSolverRCPSP_Calendar)]
        for c in which:
            for name in GREEDY:
                args = {'greedy_choice': pile.GreedyChoice[name], 'verbose': bool(self.spec['seed'] & 1)}
                s = rs.solve(c, model, **args).get_best_solution()
                self.judge(s, model, {'how': 'PILE'})
                if self.v:
                    self.v[0] = (self.v[0][0], f'{c.__name__} {name}: {self.v[0][1]}')
                    return

    def uncertain(self):
        """the same project with uncertain durations, and instances of that"""
        d, inst = im('skdecide.hub.domain.rcpsp.rcpsp_sk'), self.inst
        noisy = set(t for t in ints(inst) if (t * 7 + self.spec['seed']) % 3)
        u = d.build_stochastic_from_deterministic(self.domain, task_to_noise=noisy if self.spec['seed'] & 1 else None)
        noisy = noisy if self.spec['seed'] & 1 else set(ints(inst))
        many = d.build_n_determinist_from_stochastic(u, 2)
        for x in [u] + many:
            for t, ms in ints(self.ref).items():
                for k, e in ms.items():
                    got = x.sample_task_duration(task=t, mode=k) if x is u else x.get_task_duration(task=t, mode=k)
                    least, most = (max(1, e['duration'] - 10), e['duration'] + 10) if t in noisy and e['duration'] else (e['duration'],) * 2
                    if not least <= got <= most:
                        return self.fail('wrong domain', f'duration {got} of {t}, {e["duration"]} certain')
                    for r in inst['cap']:
                        if x.get_tasks_modes()[t][k].get_resource_need_at_time(r, 0) != e[r]:
                            return self.fail('wrong domain', f'{r} of {t}')
            for t, us in inst['succ'].items():
                if sorted(set(x.get_successors()[int(t)])) != sorted(set(us)):
                    return self.fail('wrong domain', f'successors of {t}')
            for r, c in inst['cap'].items():
                if x.get_original_quantity_resource(r) != c or x.get_resource_renewability()[r] != (r in inst['ren']):
                    return self.fail('wrong domain', f'{r}')
        self.domain = many[0]
        self.stats['instances of uncertain'] += 1

    def back(self, model):
        """and the domain made of the problem"""
        if self.inst['domain'] in ('single', 'multi') and not self.inst['own']:
            self.uncertain()
            if self.v:
                return
        for varying in (False, True):
            d = self.bind.build_sk_domain(model, varying_ressource=varying)
            inst = self.inst
            for t, us in inst['succ'].items():
                if sorted(set(d.get_successors()[int(t)])) != sorted(set(us)):
                    return self.fail('wrong domain', f'successors of {t}')
            for t, ms in ints(self.ref).items():
                for k, e in ms.items():
                    if d.get_task_duration(t, k) != e['duration']:
                        return self.fail('wrong domain', f'duration of {t}')
                    for r in inst['cap']:
                        if d.get_tasks_modes()[t][k].get_resource_need_at_time(r, 0) != e[r]:
                            return self.fail('wrong domain', f'{r} of {t}')
            for r, c in inst['cap'].items():
                if isinstance(c, list) and varying:
                    if [d.get_quantity_resource(r, time=u) for u in range(inst['horizon'])] != c[:inst['horizon']]:
                        return self.fail('wrong domain', f'calendar of {r}')
                elif d.get_original_quantity_resource(r) != (max(c[:inst['horizon']]) if isinstance(c, list) else c):
                    return self.fail('wrong domain', f'{r} is {d.get_original_quantity_resource(r)}, {c} expected')
                if d.get_resource_renewability()[r] != (r in inst['ren']):
                    return self.fail('wrong domain', f'{r} renewable')


class DoSched(Harness):
    runs = {'quick': 2500, 'thorough': 60000}
    rule = ('every run solves one to three generated scheduling domains with one solver (greedy, genetic, local search), possibly '
            'after a solve that failed, and executes the policies made of the schedules; the seed decides the projects, parameters and every random choice')
    real = ['DOSolver, the translation between domains and problems, greedy, genetic and local search solvers, schedule generation, '
            'scheduling policies, the scheduling domains that execute them']
    stub = ['the external constraint solver that chooses modes: any feasible choice', 'random generators seeded; failures injected into evaluate',
            'the commercial solver imported beside the scheduling solvers: its name only']
    assumptions = ['tasks are numbered from 1, the first and the last are the start and the end of the project']

    def gen(self, rng, tier):
        kind = rng.choice(['single', 'single', 'multi', 'multi', 'calendar', 'multicalendar'])
        own_ = kind in ('single', 'calendar') and rng.random() < .5
        how = rng.choice(['PILE', 'PILE', 'PILE', 'LS', 'GA'])
        if how == 'GA' and kind.endswith('calendar'):
            how = 'PILE'
        m = {'how': how, 'choice': rng.choice([None] + GREEDY), 'ls': rng.choice(['SA', 'HC', None]), 'iterations': rng.choice([5, 20, 40])}
        insts = [{**project(rng, kind), 'own': own_} for _ in range(rng.choice([1, 1, 2]))]
        if how != 'GA' and rng.random() < .3:
            insts.append({**project(rng, rng.choice(['single', 'multi', 'calendar', 'multicalendar'])), 'own': False})
        ops = [rng.randrange(len(insts)) for _ in range(rng.choice([1, 1, 2, 3]))]
        if how == 'GA' and max(i['n'] for i in insts) and min(i['n'] for i in insts) < 2:
            return self.gen(rng, tier)
        boom = None
        if rng.random() < .2:
            boom, ops = rng.choice([0, 1, 3, 10]), ops + [0]
        return {'insts': insts, 'ops': ops, 'method': m, 'policy': rng.choice(METHODS + ['FOLLOW_GANTT']),
                'others': rng.sample(METHODS, rng.choice([0, 1, 2])), 'direct': rng.random() < .3, 'back': rng.random() < .3,
                'boom': boom, 'seed': rng.randrange(1 << 30)}

    def execute(self, spec, record=False):
        r = SchedRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, 0, r.stats['executions'] > 0, None, r.log)

    def shrink(self, spec):
        for k, v in (('boom', None), ('others', []), ('direct', False), ('back', False)):
            if spec[k] != v:
                yield {**spec, k: v}
        for k in range(len(spec['ops'])):
            if len(spec['ops']) > 1:
                yield {**spec, 'ops': spec['ops'][:k] + spec['ops'][k + 1:]}


CHECKS = {'C34': DoSched()}
