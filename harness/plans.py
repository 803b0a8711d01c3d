"""Exact schedules: the programs built for resource constrained projects (plain, with partial solutions, in neighbourhood
searches) and the critical path method, against an enumeration of schedules."""
import contextlib
import io
import itertools
import random
import warnings

from harness import backends, exact
from harness import rcpsp_ref as R
from harness.common import Harness, Outcome
from harness.dosched import ModeSolver
from harness.local import Base, Boom, G
from harness.moves import B, im, same
from harness.standins import commercial

LP = B + 'rcpsp.solver.rcpsp_lp_solver'
LNS = B + 'rcpsp.solver.rcpsp_lp_lns_solver'
EMPTY = {'starts': {}, 'modes': {}, 'perm': [], 'orders': [], 'at_end': [], 'together': [], 'after': [], 'offset': []}


def met(ask, start, ends, modes):
    """what a partial solution asks for is so"""
    if ask is None:
        return True
    return all(start[int(t)] == s for t, s in ask['starts'].items()) and all(modes[int(t)] == m for t, m in ask['modes'].items()) and \
        all(start[a] <= start[b] for l in [ask['perm']] + ask['orders'] for a, b in zip(l, l[1:])) and \
        all(start[b] == ends[a] for a, b in ask['at_end']) and all(start[a] == start[b] for a, b in ask['together']) and \
        all(start[b] >= start[a] + d for a, b, d in ask['after']) and all(start[b] >= ends[a] + d for a, b, d in ask['offset'])


def shortest(inst, limit, ask=None):
    """the least makespan, at most limit, over all schedules and modes; None if there is none"""
    n = inst['n']
    order, pred = [], {t: {int(p) for p, us in inst['succ'].items() if t in us} for t in range(1, n + 3)}
    while len(order) < n + 2:
        order.append(next(t for t in range(1, n + 3) if t not in order and pred[t] <= set(order)))
    cap = {r: [(c[u] if u < len(c) else 0) if isinstance(c, list) else c for u in range(limit + 1)] for r, c in inst['cap'].items() if r in inst['ren']}
    best = [limit + 1]
    start, ends, modes = {}, {}, {}
    used = {r: [0] * (limit + 1) for r in cap}
    non = {r: 0 for r in inst['non']}

    def go(i):
        if i == n + 2:
            if met(ask, start, ends, modes):
                best[0] = min(best[0], start[n + 2])
            return
        t = order[i]
        lo = max([ends[p] for p in pred[t]], default=0)
        for m, d in inst['modes'][str(t)].items():
            m = int(m)
            if ask and ask['modes'].get(str(t), m) != m or any(non[r] + d[r] > inst['cap'][r] for r in non):
                continue
            hi = best[0] - 1 - d['duration']
            at = range(lo, hi + 1)
            if ask and str(t) in ask['starts']:
                at = [ask['starts'][str(t)]] if lo <= ask['starts'][str(t)] <= hi else []
            elif t == n + 2 and not ask:
                at = at[:1]
            for s in at:
                if s + d['duration'] > best[0] - 1:
                    break
                if any(used[r][u] + d[r] > cap[r][u] for r in cap for u in range(s, s + d['duration'])):
                    continue
                for r in cap:
                    for u in range(s, s + d['duration']):
                        used[r][u] += d[r]
                for r in non:
                    non[r] += d[r]
                start[t], ends[t], modes[t] = s, s + d['duration'], m
                go(i + 1)
                for r in cap:
                    for u in range(s, s + d['duration']):
                        used[r][u] -= d[r]
                for r in non:
                    non[r] -= d[r]
                del start[t], ends[t], modes[t]
                if t == 1 and not ask:
                    break
    go(0)
    return best[0] if best[0] <= limit else None


def parallel(inst, order):
    """start times when, time after time, the first task of the order which can start does"""
    n = inst['n']
    pred = {t: {int(p) for p, us in inst['succ'].items() if t in us} for t in range(1, n + 3)}
    need = {t: inst['modes'][str(t)]['1'] for t in pred}
    left = {r: list(c) if isinstance(c, list) else [c] * inst['horizon'] for r, c in inst['cap'].items()}
    start, now = {}, 0
    while len(start) < n + 2:
        t = next((t for t in order if t not in start and all(p in start and start[p] + need[p]['duration'] <= now for p in pred[t]) and
                  all(left[r][u] >= need[t][r] for r in left for u in range(now, now + need[t]['duration']))), None)
        if t is None:
            now += 1
            continue
        start[t] = now
        for r in left:
            for u in range(now, now + need[t]['duration']):
                left[r][u] -= need[t][r]
    return start


def gen_partial(rng, inst, start, modes):
    """constraints some schedule satisfies (or, rarely, any)"""
    n = inst['n']
    ask = {k: type(v)() for k, v in EMPTY.items()}
    real = list(range(2, n + 2))
    end = {t: start[t] + inst['modes'][str(t)][str(modes[t])]['duration'] for t in start}
    for kind in rng.sample(sorted(EMPTY), rng.choice([1, 1, 2, 3])):
        k = rng.randint(1, n)
        some = sorted(rng.sample(real, k), key=lambda t: (start[t], t))
        pairs = [(a, b) for a in range(1, n + 3) for b in real if a != b]
        if kind == 'starts':
            ask['starts'] = {str(t): start[t] for t in some}
        elif kind == 'modes':
            ask['modes'] = {str(t): modes[t] for t in some}
        elif kind == 'perm':
            ask['perm'] = some
        elif kind == 'orders':
            ask['orders'] = [some, sorted(rng.sample(real, k), key=lambda t: (start[t], t))][:rng.choice([1, 2])]
        elif kind == 'at_end':
            ask['at_end'] = [list(p) for p in pairs if start[p[1]] == end[p[0]]][:2]
        elif kind == 'together':
            ask['together'] = [list(p) for p in pairs if start[p[0]] == start[p[1]]][:2]
        elif kind == 'after':
            ps = [(a, b, start[b] - start[a] - rng.choice([0, 1])) for a, b in pairs]
            ask['after'] = [list(p) for p in rng.sample(ps, min(2, len(ps)))]
        else:
            ps = [(a, b, start[b] - end[a] - rng.choice([0, 1])) for a, b in pairs]
            ask['offset'] = [list(p) for p in rng.sample(ps, min(2, len(ps)))]
    return ask


class PlanRun(Base):
    early = None

    def go(self):
        import numpy as np
        sp = self.spec
        random.seed(sp['seed'])
        np.random.seed(sp['seed'])
        commercial()
        backends.install()
        exact.install()
        self.rng = random.Random(sp['seed'])
        backends.State.run = self
        pile = im(B + 'rcpsp.solver.rcpsp_pile')
        real, pile.CP_MRCPSP_MZN_MODES = pile.CP_MRCPSP_MZN_MODES, ModeSolver
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.history()
        except Boom:
            self.fail('raises', 'an injected failure came up where none was armed')
        except Exception as e:
            self.crash('history', e)
        finally:
            pile.CP_MRCPSP_MZN_MODES = real

    def spy(self, problem):
        tell = problem.evaluate

        def told(s):
            self.event('evaluate')
            return tell(s)
        problem.evaluate = told
        return problem

    def history(self):
        sp = self.spec
        problems, solvers = {}, {}
        for k, op in enumerate(sp['ops']):
            self.n = k
            inst = self.inst = sp['insts'][op['on']]
            ModeSolver.now = {'feasible': inst['feasible']}
            if op['on'] not in problems:
                problems[op['on']] = self.spy(R.build(inst))
            problem = problems[op['on']]
            if op['how'] == 'cpm':
                self.critical(problem, op)
                if self.v:
                    return
                continue
            key = (op['on'], op['lp'], str(op['ask']), op['start'])
            self.arm, self.early = op['boom'], op['early']
            try:
                if not op['again'] or key not in solvers:
                    solvers[key] = self.create(problem, op)
                else:
                    self.stats['programs used again'] += 1
                self.gave_up = False
                store = self.solve(solvers[key], problem, op)
                if self.gave_up:
                    solvers.pop(key)
                    self.stats['left out: the stand-in of the integer programming library failed'] += 1
                    continue
                if op['boom'] is not None and self.arm is None:      # schedules which cannot be evaluated are left out
                    self.faults['failing evaluation'] += 1
                    self.event('left out')
                    continue
            except Boom:
                self.faults['failing evaluation'] += 1
                solvers.pop(key, None)
                self.event('failed')
                continue
            finally:
                self.arm, self.early = None, None
            self.stats[f'{inst["kind"]} by {op["how"]} on {op["lp"]}'] += 1
            self.judge(solvers[key], store, problem, op)
            if self.v:
                return

    def partial(self, ask):
        if ask is None:
            return None
        m = im(B + 'rcpsp.rcpsp_model')
        p = m.PartialSolution(task_mode={int(t): m_ for t, m_ in ask['modes'].items()} or None,
                              start_times={int(t): s for t, s in ask['starts'].items()} or None,
                              partial_permutation=list(ask['perm']) or None, list_partial_order=[list(l) for l in ask['orders']] or None)
        for f, k in (('start_at_end', 'at_end'), ('start_together', 'together'), ('start_after_nunit', 'after'), ('start_at_end_plus_offset', 'offset')):
            if ask[k]:
                setattr(p, f, [tuple(x) for x in ask[k]])
        return p

    def given(self, problem):
        inst = self.inst
        m = im(B + 'rcpsp.rcpsp_model')
        return m.RCPSPSolution(problem=problem, rcpsp_permutation=list(inst['perm']), rcpsp_modes=list(inst['feasible']))

    def create(self, problem, op):
        lp = im(LP)
        s = {'plain': lp.LP_RCPSP, 'modes': lp.LP_MRCPSP}[op['lp']](problem)
        s.init_model(greedy_start=op['start'] == 'greedy', **({'start_solution': self.given(problem)} if op['start'] == 'given' else {}),
                     **({'partial_solution': self.partial(op['ask'])} if op['ask'] else {}))
        return s

    def solve(self, s, problem, op):
        milp = im(G + 'lp_tools').ParametersMilp.default()
        milp.retrieve_all_solution = op['all']
        if op['how'] == 'lp':
            return s.solve(parameters_milp=milp)
        m = im(LNS)
        init = m.InitialSolutionRCPSP(problem, initial_method=m.InitialMethodRCPSP[op['init']])
        if op['lp'] == 'modes':
            h = m.ConstraintHandlerStartTimeIntervalMRCPSP(problem, op['fix'], op['minus'], op['plus'])
        elif op['handler'] == 'fix':
            h = m.ConstraintHandlerFixStartTime(problem, op['fix'])
        else:
            h = m.ConstraintHandlerStartTimeInterval(problem, op['fix'], op['minus'], op['plus'])
        return im(G + 'lns_mip').LNS_MILP(problem, s, init, h).solve_lns(milp, nb_iteration_lns=op['rounds'])

    # -- what they return
    def judge(self, solver, store, problem, op):
        inst, n = self.inst, self.inst['n']
        what = f'{op["how"]} on {op["lp"]}'
        first = solver.start_solution
        bound = first.rcpsp_schedule[n + 2]['start_time'] if first.rcpsp_schedule_feasible else inst['horizon']
        can = shortest(inst, bound, op['ask'])
        pairs = list(store.list_solution_fits)
        if not pairs:
            if can is not None and op['early'] != 'nothing':
                self.fail('no solution', f'{what} finds none of {inst} asked {op["ask"]}, one takes {can}')
            return
        self.stats['schedules'] += len(pairs)
        spans = []
        for k, (s, f) in enumerate(pairs):
            start = {t: d['start_time'] for t, d in s.rcpsp_schedule.items()} if s.rcpsp_schedule else {}
            self.event('schedule', sorted(start.items()))
            if op['how'] == 'lns' and k == 0 and not s.rcpsp_schedule_feasible:
                continue        # the initial solution
            modes = [int(x) for x in s.rcpsp_modes]
            bad = R.faults_of(inst, start, modes)
            if bad:
                return self.fail('not a schedule', f'{what}: {start} {modes}: {bad} in {inst}')
            used = {t: 1 if t in (1, n + 2) else modes[t - 2] for t in start}
            ends = {t: d['end_time'] for t, d in s.rcpsp_schedule.items()}
            for t in start:
                if ends[t] != start[t] + R.mode_of(inst, modes, t)['duration']:
                    return self.fail('wrong end', f'{what}: task {t} starts at {start[t]} and ends at {ends[t]} in mode {used[t]} of {inst}')
            if op['how'] == 'lp' and not met(op['ask'], start, ends, used):
                return self.fail('partial solution ignored', f'{what}: {start} {modes} asked {op["ask"]}')
            spans.append(start[n + 2])
            if not same(f, -float(start[n + 2])):
                return self.fail('wrong fitness', f'{what}: {start} is stored with {f}')
            if not problem.satisfy(s):
                return self.fail('not satisfying', f'{what}: {start} {modes} is said not to be a solution')
        if op['how'] == 'lns' and not spans:
            return
        best, fit = store.get_best_solution_fit()
        for b in (best, store.get_best_solution(), store.best_solution if op['how'] == 'lp' else best):
            if b is None or b.rcpsp_schedule[n + 2]['start_time'] != min(spans):
                return self.fail('not the best', f'{what}: the best solution takes {b and b.rcpsp_schedule[n + 2]["start_time"]}, another {min(spans)}')
        if op['early'] is None and op['how'] == 'lp' and can is not None and min(spans) != can:
            return self.fail('not optimal', f'{what}: {min(spans)}, {can} is possible in {inst} asked {op["ask"]}')
        if can is not None and min(spans) < (can if op['how'] == 'lp' else shortest(inst, bound) or 0):
            return self.fail('too good', f'{what}: {min(spans)} of {can} in {inst} asked {op["ask"]}')
        if op['how'] == 'lp':
            self.stats['optima'] += op['early'] is None

    # -- critical paths
    def critical(self, problem, op):
        inst, n = self.inst, self.inst['n']
        c = im(B + 'rcpsp.solver.cpm').CPM(problem)
        self.arm = None
        path = c.run_classic_cpm()
        least = {t: min(d['duration'] for d in inst['modes'][str(t)].values()) for t in range(1, n + 3)}
        pred = {t: {int(p) for p, us in inst['succ'].items() if t in us} for t in range(1, n + 3)}
        esd, lfd = {}, {}

        def early(t):
            if t not in esd:
                esd[t] = max([early(p) + least[p] for p in pred[t]], default=0)
            return esd[t]

        def late(t):
            if t not in lfd:
                lfd[t] = min([late(u) - least[u] for u in inst['succ'][str(t)]], default=early(n + 2))
            return lfd[t]
        for t in range(1, n + 3):
            o = c.map_node[t]
            want = (early(t), early(t) + least[t], late(t) - least[t], late(t))
            if (o._ESD, o._EFD, o._LSD, o._LFD) != want:
                return self.fail('wrong dates', f'task {t}: {o}, they are {want} in {inst}')
        self.event('critical', path)
        if path[0] != 1 or path[-1] != n + 2 or any(a not in pred[b] for a, b in zip(path, path[1:])) or sum(least[t] for t in path) != early(n + 2):
            return self.fail('not critical', f'{path} takes {sum(least[t] for t in path)} of {early(n + 2)} in {inst}')
        self.stats['critical paths'] += 1
        order = c.return_order_cpm()
        if sorted(order) != list(range(1, n + 3)) or any((esd[a], late(a) - least[a]) > (esd[b], late(b) - least[b]) for a, b in zip(order, order[1:])):
            return self.fail('wrong order', f'{order} of {inst}')
        if inst['kind'] == 'multi':
            return
        ones = [1] * n
        total = None if op['order'] is None else [1] + list(op['order']) + [n + 2]
        serial = total or order
        if op['cut']:
            serial, done = [], set()
            for t in path:
                before = [u for u in (total or order) if u not in done and self.above(pred, u, t)]
                serial += before + [t]
                done |= set(before) | {t}
        want = R.sgs(inst, [t - 2 for t in serial if t not in (1, n + 2)], ones)
        if want is None:
            return
        got = c.run_sgs_on_order(c.map_node, path, total, cut_sgs_by_critical=op['cut'])[0]
        self.plan('series', got, inst, want)
        if self.v:
            return
        # everything is possible one after the other
        if op['loop'] and (inst['kind'] == 'calendar' or inst['horizon'] > sum(least.values())):
            got = c.run_sgs_time_loop(c.map_node, path, total)[0]
            self.plan('parallel', got, inst, parallel(inst, total or order))

    def above(self, pred, u, t):
        return u in pred[t] or any(self.above(pred, u, p) for p in pred[t])

    def plan(self, what, got, inst, want):
        start = {t: int(d['start_time']) for t, d in got.items()}
        self.event('plan', what, sorted(start.items()))
        self.stats[f'{what} schedules'] += 1
        bad = R.faults_of(inst, start, [1] * inst['n'])
        if bad:
            return self.fail('not a schedule', f'{what}: {start}: {bad} in {inst}')
        if want is not None and start != want:
            return self.fail('wrong schedule', f'{what}: {start}, as early as possible it is {want} in {inst}')


class Plans(Harness):
    runs = {'quick': 4000, 'thorough': 60000}
    real = ['integer programs for projects of one and several modes, with calendars and partial solutions; neighbourhood searches over them '
            'with all constraint handlers; greedy starts; the critical path method and the schedules made from it; schedule models']
    stub = ['back end of the integer programming package (HiGHS behind its interface)', 'external constraint solver choosing modes (any feasible choice)',
             'names of the commercial solver']

    def gen(self, rng, tier):
        insts = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(['single', 'single', 'multi', 'multi', 'calendar'])
            cpm = rng.random() < .4
            inst = R.gen_instance(rng, kind, rng.choice([1, 2, 3, 4, 5, 6] if cpm else [1, 2, 2, 3, 3] + [4] * (kind == 'single')))
            if inst['horizon'] > 22 and not cpm:
                inst['horizon'] = 22
                inst['cap'] = {r: c[:23] if isinstance(c, list) else c for r, c in inst['cap'].items()}
            n = inst['n']
            inst['cpm'] = cpm
            inst['calm'] = kind == 'calendar'
            if kind == 'calendar':      # in the end everything is there
                h = inst['horizon']
                total = sum(ms['1']['duration'] for ms in inst['modes'].values())
                most = {r: max([ms['1'][r] for ms in inst['modes'].values()] + [1]) for r in inst['ren']}
                if cpm:
                    inst['horizon'] = h = h + total + 1
                    inst['cap'] = {r: c[:h - total] + [max(max(c), most[r])] * (total + 1) for r, c in inst['cap'].items()}
            inst['feasible'] = [int(rng.choice(sorted(inst['modes'][str(t)]))) for t in range(2, n + 2)]
            if inst['non'] and rng.random() < .8:
                for r in inst['non']:
                    inst['cap'][r] = max(inst['cap'][r], sum(R.mode_of(inst, inst['feasible'], t)[r] for t in range(1, n + 3)))
            inst['perm'] = rng.sample(range(n), n)
            insts.append(inst)
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            on = rng.randrange(len(insts))
            inst = insts[on]
            n = inst['n']
            if inst['cpm']:
                ops.append({'on': on, 'how': 'cpm', 'order': None if rng.random() < .6 else rng.sample(range(2, n + 2), n),
                            'cut': rng.random() < .5, 'loop': rng.random() < .6})
                continue
            op = {'on': on, 'how': rng.choice(['lp', 'lp', 'lns']), 'lp': rng.choice(['plain', 'modes']) if inst['kind'] == 'single' else 'modes',
                  'again': rng.random() < .6, 'boom': rng.choice([0, 1, 2, 3]) if rng.random() < .1 else None,
                  'early': rng.choice(['first', 'first', 'nothing']) if rng.random() < .15 else None, 'all': rng.random() < .7,
                  'start': rng.choice(['greedy', 'dummy', 'given']), 'ask': None,
                  'init': 'DUMMY' if inst['kind'] == 'calendar' and rng.random() < .5 else 'PILE_CALENDAR' if inst['kind'] == 'calendar' else rng.choice(['DUMMY', 'PILE']),
                  'handler': rng.choice(['fix', 'interval']), 'fix': rng.choice([0, .3, .6, .9, 1]), 'minus': rng.choice([0, 1, 2, 5]),
                  'plus': rng.choice([0, 1, 2, 5]), 'rounds': rng.choice([0, 1, 2, 4])}
            if op['how'] == 'lp' and rng.random() < .4:
                st = R.sgs(inst, inst['perm'], inst['feasible'])
                if st:
                    op['ask'] = gen_partial(rng, inst, st, {t: 1 if t in (1, n + 2) else inst['feasible'][t - 2] for t in st})
                    op['start'] = 'given'
                    if op['lp'] == 'plain':
                        op['ask']['modes'] = {}
            ops.append(op)
        return {'insts': insts, 'ops': ops, 'seed': rng.randrange(1 << 30)}

    def execute(self, spec, record=False):
        r = PlanRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, r.stats['schedules'] + r.stats['critical paths'] > 0, None, r.log)

    def shrink(self, spec):
        for k in range(len(spec['ops'])):
            if len(spec['ops']) > 1:
                yield {**spec, 'ops': spec['ops'][:k] + spec['ops'][k + 1:]}
        for k, op in enumerate(spec['ops']):
            for f, v in (('boom', None), ('early', None), ('again', False), ('ask', None), ('order', None)):
                if f in op and op[f] != v:
                    yield {**spec, 'ops': spec['ops'][:k] + [{**op, f: v}] + spec['ops'][k + 1:]}
            if op.get('rounds', 0) > 1:
                yield {**spec, 'ops': spec['ops'][:k] + [{**op, 'rounds': op['rounds'] - 1}] + spec['ops'][k + 1:]}
            if op.get('ask'):
                for f, v in op['ask'].items():
                    if v:
                        yield {**spec, 'ops': spec['ops'][:k] + [{**op, 'ask': {**op['ask'], f: type(v)()}}] + spec['ops'][k + 1:]}


CHECKS = {'C37': Plans()}
