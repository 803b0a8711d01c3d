"""Benchmark files: generated instances are written in the published formats, read back, cut short by torn writes, and evaluated."""
import contextlib
import io
import math
import os
import random
import shutil
import tempfile
from importlib import import_module as im

from harness.common import Harness, Outcome, drop_each
from harness.local import Base, hsh

O = 'skdecide.builders.discrete_optimization.'


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))


class FileRun(Base):
    def go(self):
        self.dir = tempfile.mkdtemp(prefix='files')
        os.environ['NUMBA_BOUNDSCHECK'] = '1'  # indices outside raise instead of reading what is there
        im('skdecide.utils')
        self.rng = random.Random(self.spec['salt'])
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                getattr(self, 'read_' + self.spec['kind'])()
            except Exception as e:
                self.crash(self.spec['kind'], e)
            finally:
                shutil.rmtree(self.dir)

    def num(self, real=False):
        x = self.rng.choice([0, 1, 2, 7, 30, 123, 4567])
        return x + self.rng.choice([0., .5, .25, .001]) if real else x

    def write(self, lines, name='instance.txt'):
        path = os.path.join(self.dir, name)
        gap = self.spec['gap']
        text = '\n'.join(l.replace(' ', gap) if gap != ' ' and ':' not in l else l for l in lines) + (self.spec['end'] if name != 'torn.txt' else self.spec['end'][:1])
        with open(path, 'w') as f:
            f.write(text)
        self.event('write', name, hsh(text))
        return path

    def cut(self, lines, parse, what, first=1):
        """a file which lost its last lines is refused"""
        for k in self.spec['cuts']:
            keep = first + k % max(1, len(lines) - first)
            if keep >= len(lines):
                continue
            path = self.write(lines[:keep], 'torn.txt')
            self.faults['torn file'] += 1
            try:
                parse(path)
            except Exception as e:
                self.event('refused', type(e).__name__)
                continue
            return self.fail('torn file', f'{what}: {keep} of {len(lines)} lines are taken for an instance')

    def same(self, what, got, want):
        if got != want:
            self.fail(what, f'{got} instead of {want}')
        return got == want

    # -- one line per thing
    def read_knapsack(self):
        p = im(O + 'knapsack.knapsack_parser')
        items = [(self.num(), self.num() + 1) for _ in range(self.spec['size'])]
        cap = self.num()
        lines = [f'{len(items)} {cap}'] + [f'{v} {w}' for v, w in items]
        m = p.parse_file(self.write(lines))
        self.same('items', [(i.index, i.value, i.weight) for i in m.list_items], [(k, v, w) for k, (v, w) in enumerate(items)])
        self.same('capacity', m.max_capacity, cap)
        self.same('number', m.nb_items, len(items))
        self.stats['knapsacks'] += 1
        self.cut(lines, p.parse_file, 'knapsack')

    def read_facility(self):
        p = im(O + 'facility.facility_parser')
        F = [(self.num(True), self.num(), self.num(True), self.num(True)) for _ in range(self.spec['size'])]
        C = [(self.num(), self.num(True), self.num(True)) for _ in range(self.spec['other'])]
        lines = [f'{len(F)} {len(C)}'] + [' '.join(map(str, x)) for x in F + C]
        m = p.parse_file(self.write(lines))
        self.same('facilities', [(f.index, f.setup_cost, f.capacity, f.location.x, f.location.y) for f in m.facilities], [(k, *x) for k, x in enumerate(F)])
        self.same('customers', [(c.index, c.demand, c.location.x, c.location.y) for c in m.customers], [(k, *x) for k, x in enumerate(C)])
        self.same('numbers', (m.facility_count, m.customer_count), (len(F), len(C)))
        for f, x in zip(m.facilities, F):
            for c, y in zip(m.customers, C):
                if not close(m.evaluate_customer_facility(f, c), math.hypot(x[2] - y[1], x[3] - y[2])):
                    return self.fail('distance', f'{x} to {y}')
        self.stats['facilities'] += 1
        self.cut(lines, p.parse_file, 'facilities')

    def read_coloring(self):
        p = im(O + 'coloring.coloring_parser')
        k = self.spec['size']
        E = sorted({tuple(self.rng.sample(range(k), 2)) for _ in range(self.spec['other'])}) if k > 1 else []
        self.rng.shuffle(E)
        lines = [f'{k} {len(E)}'] + [f'{a} {b}' for a, b in E]
        m = p.parse_file(self.write(lines))
        self.same('nodes', sorted(m.graph.nodes_name), list(range(k)))
        for a in range(k):
            self.same(f'neighbours of {a}', sorted(set(m.graph.get_neighbors(a))), sorted({b for x in E for b in x if a in x and b != a}))
        self.stats['graphs'] += 1
        self.cut(lines, p.parse_file, 'graph')

    def read_tsp(self):
        p = im(O + 'tsp.tsp_parser')
        P = [(self.num(True), self.num(True)) for _ in range(self.spec['size'])]
        lines = [str(len(P))] + [f'{x} {y}' for x, y in P]
        s, e = self.rng.choice([(None, None), (0, 0), (len(P) - 1, 0), (0, len(P) - 1)])
        m = p.parse_file(self.write(lines), start_index=s, end_index=e)
        self.same('points', [(q.x, q.y) for q in m.list_points], P)
        self.same('number', m.node_count, len(P))
        self.same('ends', (m.start_index, m.end_index), (s or 0, (s or 0) if e is None else e))
        self.stats['tours'] += 1
        self.cut(lines, p.parse_file, 'points')

    def read_vrp(self):
        p = im(O + 'vrp.vrp_parser')
        C = [(self.num(), self.num(True), self.num(True)) for _ in range(self.spec['size'])]
        V, cap = self.rng.choice([1, 2, 3]), self.num()
        lines = [f'{len(C)} {V} {cap}'] + [' '.join(map(str, c)) for c in C]
        v = self.rng.choice([None, None, 1, 4])
        s, e = self.rng.randrange(len(C)), self.rng.randrange(len(C))
        m = p.parse_file(self.write(lines), start_index=s, end_index=e, vehicle_count=v)
        n = v or V
        self.same('vehicles', (m.vehicle_count, list(m.vehicle_capacities), list(m.start_indexes), list(m.end_indexes)), (n, [cap] * n, [s] * n, [e] * n))
        self.same('customers', [(c.name, c.demand, c.x, c.y) for c in m.customers], [(k, *c) for k, c in enumerate(C)])
        self.stats['vehicle problems'] += 1
        self.cut(lines, p.parse_file, 'customers')

    # -- travelling thief
    def read_ttp(self):
        import numpy as np
        p, mod = im(O + 'ttp.ttp_parser'), im(O + 'ttp.ttp_model')
        rng, k = self.rng, max(2, self.spec['size'])
        P = [(self.num(), self.num()) for _ in range(k)]
        I = [(self.num(), rng.randint(1, 30), rng.randrange(k)) for _ in range(self.spec['other'] + 1)]
        cap, lo, hi, rent = sum(w for _, w, _ in I) + rng.randint(1, 20), rng.choice([.1, .5]), 1., rng.choice([.05, 1.5, 5.61])
        lines = ['PROBLEM NAME: \tthief', 'KNAPSACK DATA TYPE: bounded', f'DIMENSION:\t{k}', f'NUMBER OF ITEMS: \t{len(I)}', f'CAPACITY OF KNAPSACK: \t{cap}',
                 f'MIN SPEED: \t{lo}', f'MAX SPEED: \t{hi}', f'RENTING RATIO: \t{rent}', 'EDGE_WEIGHT_TYPE:\tCEIL_2D', 'NODE_COORD_SECTION\t(INDEX, X, Y): ']
        head = len(lines)
        lines += [f'{j + 1}\t{x}\t{y}' for j, (x, y) in enumerate(P)] + ['ITEMS SECTION\t(INDEX, PROFIT, WEIGHT, ASSIGNED NODE NUMBER): ']
        lines += [f'{j + 1}\t{v}\t{w}\t{c + 1}' for j, (v, w, c) in enumerate(I)]
        m = p.parse(self.write(lines))
        self.same('parameters', (m.problemName, m.knapsackDataType, m.numberOfNodes, m.numberOfItems, m.capacityOfKnapsack, m.minSpeed, m.maxSpeed, m.rentingRatio, m.edgeWeightType),
                  ('thief', 'bounded', k, len(I), cap, lo, hi, rent, 'CEIL_2D'))
        self.same('nodes', [(n['index'], n['x'], n['y']) for n in m.nodes], [(j, *x) for j, x in enumerate(P)])
        self.same('items', [(i['index'], i['profit'], i['weight'], i['node_index']) for i in m.items], [(j, *x) for j, x in enumerate(I)])
        self.stats['thieves'] += 1
        for _ in range(2):
            inner = list(range(k))
            rng.shuffle(inner)
            tour = inner + inner[:1]
            pack = [c if rng.random() < .5 else -1 for _, _, c in I]
            s = mod.TTPSolution(np.array(tour), np.array(pack))
            w, prof, dist, time, weights = 0, 0, 0., 0., []
            for a, b in zip(tour, tour[1:]):
                w += sum(I[j][1] for j, c in enumerate(pack) if c == a)
                prof += sum(I[j][0] for j, c in enumerate(pack) if c == a)
                weights.append(w)
                d = math.dist(P[a], P[b])
                dist += d
                time += d / (hi - w * (hi - lo) / cap)
            got = m.evaluate(s)['obj']
            for step in ('evaluate', 'details', 'copy'):
                if step == 'details':
                    s = mod.TTPSolution(np.array(tour), np.array(pack))
                    got = m.evaluate_details(s)
                    self.same('weights', [int(x) for x in s.weight_array], weights)
                elif step == 'copy':
                    old, s = s, s.copy()
                    s.packing[0] = -1 if pack[0] >= 0 else 0
                    s.tour[0] = 0
                    if list(old.packing) != pack or list(old.tour) != tour:
                        return self.fail('copy', 'shares its tour or packing')
                    got = s.objective
                for name, a, b in (('objective', got, prof - time * rent), ('objective', s.objective, prof - time * rent), ('profit', s.profit, prof), ('distance', s.distance, dist),
                                   ('time', s.time_trip, time), ('weight', s.weight_used, w), ('room', s.weight_end, cap - w)):
                    if not close(float(a), b):
                        return self.fail(name, f'{step}: {a} instead of {b} for {tour} with {pack}')
            self.stats['trips'] += 1
        # lines of nodes or items missing: the head alone says how many there are
        self.cut(lines, p.parse, 'travelling thief', head)

    # -- projects
    def project(self):
        rng = self.rng
        n = self.spec['size'] + 2
        multi = self.spec['multi']
        res = [f'R{j + 1}' for j in range(rng.choice([1, 2, 4]))] + ([f'N{j + 1}' for j in range(rng.choice([0, 1, 2]))] if multi else [])
        avail = {r: rng.randint(1, 40) for r in res}
        modes = {t: {k + 1: {'duration': 0 if t in (1, n) else rng.randint(1, 10), **{r: 0 if t in (1, n) else rng.choice([0, 0, rng.randint(0, avail[r])]) for r in res}}
                     for k in range(1 if t in (1, n) or not multi else rng.choice([1, 2, 3]))} for t in range(1, n + 1)}
        succ = {t: sorted(rng.sample(range(t + 1, n + 1), rng.randint(1, min(3, n - t)))) if t < n else [] for t in range(1, n + 1)}
        return n, res, avail, modes, succ

    def project_is(self, m, avail, modes, succ, horizon):
        really = any(len(x) > 1 for x in modes.values())
        self.same('resources', dict(m.resources), avail)
        self.same('non-renewable', sorted(m.non_renewable_resources), sorted(r for r in avail if r[0] == 'N'))
        self.same('tasks', {t: {k: dict(x) for k, x in v.items()} for t, v in m.mode_details.items()}, modes)
        self.same('successors', {t: list(v) for t, v in m.successors.items()}, succ)
        self.same('horizon', m.horizon, horizon)
        self.same('kind', type(m).__name__, 'MultiModeRCPSPModel' if really else 'SingleModeRCPSPModel')

    def read_psplib(self):
        p = im(O + 'rcpsp.rcpsp_parser')
        n, res, avail, modes, succ = self.project()
        horizon = sum(max(m['duration'] for m in x.values()) for x in modes.values())
        star = '*' * 72
        lines = [star, 'file with basedata            : x.bas', 'initial value random generator: 1', star, 'projects                      :  1',
                 f'jobs (incl. supersource/sink ):  {n}', f'horizon                       :  {horizon}', 'RESOURCES', f'  - renewable                 :  {sum(r[0] == "R" for r in res)}   R',
                 f'  - nonrenewable              :  {sum(r[0] == "N" for r in res)}   N', '  - doubly constrained        :  0   D', star, 'PROJECT INFORMATION:',
                 'pronr.  #jobs rel.date duedate tardcost  MPM-Time', f'    1     {n - 2}      0       38       26       38', star, 'PRECEDENCE RELATIONS:',
                 'jobnr.    #modes  #successors   successors']
        lines += [f'{t:4}{len(modes[t]):9}{len(succ[t]):11}        ' + ''.join(f'{s:4}' for s in succ[t]) for t in succ]
        lines += [star, 'REQUESTS/DURATIONS:', 'jobnr. mode duration  ' + '  '.join(f'{r[0]} {r[1:]}' for r in res), '-' * 72]
        for t in modes:
            for k, m in modes[t].items():
                lines.append((f'{t:3}' if k == 1 else '   ') + f'{k:7}{m["duration"]:6}    ' + ''.join(f'{m[r]:5}' for r in res))
        lines += [star, 'RESOURCEAVAILABILITIES:', '  ' + '  '.join(f'{r[0]} {r[1:]}' for r in res), ''.join(f'{avail[r]:5}' for r in res), star]
        self.spec = {**self.spec, 'gap': ' '}
        path = self.write(lines, 'x.mm')
        m = p.parse_file(path)
        self.project_is(m, avail, modes, succ, horizon)
        self.stats['projects'] += 1
        if self.spec['domain'] and not self.v:
            was = p.get_data_available
            try:
                p.get_data_available = lambda: [path]
                d = im('skdecide.hub.domain.rcpsp.rcpsp_sk_parser').load_domain('x.mm')
            finally:
                p.get_data_available = was
            self.same('domain tasks', sorted(d.get_tasks_ids()), sorted(modes))
            self.same('domain successors', {t: list(v) for t, v in d.get_successors().items()}, succ)
            self.same('domain horizon', d.get_max_horizon(), horizon)
            for t in modes:
                self.same('domain modes', sorted(d.get_task_modes(t)), sorted(modes[t]))
                for k in modes[t]:
                    self.same('domain duration', d.get_task_duration(t, k), modes[t][k]['duration'])
                    for r in res:
                        self.same('domain consumption', d.get_task_consumption(t, k, r, 0), modes[t][k][r])
            for r in res:
                self.same('domain resource', d.get_quantity_resource(r, 0), avail[r])
                self.same('domain renewable', d.is_renewable(r), r[0] == 'R')
            self.stats['domains'] += 1
        if not self.v:
            self.cut(lines[:-1], p.parse_file, 'project')

    def skilled_project_is(self, m, back, T, E, H):
        new = {t: i + 2 for i, t in enumerate(sorted(T))}
        last = len(T) + 2
        seen = {q for _, x in E.values() for q in x} | {t[1] for t in T.values()}
        self.same('names', back, {v: k for k, v in new.items()})
        self.same('skills', set(m.skills_set), seen)
        self.same('ends', (m.source_task, m.sink_task, m.horizon), (1, last, H or 300))
        want = {new[t]: {1: {'duration': d, **{s: (v + 1 if s == q else 0) for s in seen}}} for t, (d, q, v, _) in T.items()}
        want[1] = want[last] = {1: {'duration': 0, **{s: 0 for s in seen}}}
        self.same('tasks', {t: {k: {a: b for a, b in x.items() if a in seen or a == 'duration'} for k, x in v.items()} for t, v in m.mode_details.items()}, want)
        succ = {new[t]: {new[u] for u in T if t in T[u][3]} | {last} for t in T}
        succ[1], succ[last] = set(range(2, last + 1)), set()
        self.same('successors', {t: set(v) for t, v in m.successors.items()}, succ)
        self.same('employees', {e: (x.salary, {s: d.skill_value for s, d in x.dict_skill.items()}) for e, x in m.employees.items()},
                  {e: (s, {q: v + 1 for q, v in x.items()}) for e, (s, x) in E.items()})
        for e, x in m.employees.items():
            self.same('calendar', [bool(a) for a in x.calendar_employee], [True] * (H or 300))
        return new, last

    def read_imopse(self):
        p = im(O + 'rcpsp_multiskill.rcpsp_multiskill_parser')
        rng, n = self.rng, self.spec['size']
        skills = [f'Q{j}' for j in range(rng.choice([1, 2, 4, 12]))]
        names = sorted(rng.sample(range(1, 3 * n + 1), n)) if rng.random() < .3 else list(range(1, n + 1))
        E = {j + 1: (rng.randint(100, 900) / 10, {q: rng.randint(0, 2) for q in rng.sample(skills, rng.randint(1, min(6, len(skills))))}) for j in range(max(1, self.spec['other'] % 6))}
        T = {t: (rng.randint(1, 40), rng.choice(skills), rng.randint(0, 2), sorted(rng.sample(names[:i], rng.choice([0, 0, 1, min(2, i)])) if i else [])) for i, t in enumerate(names)}
        bar = '=' * 100
        lines = [bar, 'File name: x.def', 'Creation date: Mon Nov 24 20:40:29 CET 2014', bar, 'General characteristics:', f'Tasks: {n}', f'Resources: {len(E)}',
                 f'Precedence relations: {sum(len(t[3]) for t in T.values())}', f'Number of skill types: {len(skills)}', bar, 'ResourceID \t Salary \t Skills ']
        lines += [f'{e}\t \t \t{s}\t \t ' + '\t '.join(f'{q}: {v} ' for q, v in x.items()) for e, (s, x) in E.items()] + [bar, 'TaskID \t Duration \t Skill \t Predecessor IDs ']
        order = list(T)
        if rng.random() < .4:
            rng.shuffle(order)
        lines += [f'{t}\t \t \t{T[t][0]}\t {T[t][1]}: {T[t][2]}\t \t' + ' '.join(map(str, T[t][3])) for t in order] + [bar]
        H = rng.choice([None, 50, 1000])
        m, back = p.parse_file(self.write(lines, 'x.def'), H)
        new, last = self.skilled_project_is(m, back, T, E, H)
        self.stats['skilled projects'] += 1
        if self.v:
            return
        self.cut(lines[:-1], p.parse_file, 'skilled project', lines.index(bar, 4) + 1)
        # solutions go to disk and come back
        M = im(O + 'rcpsp_multiskill.rcpsp_multiskill')
        start, who = {}, {}
        for t in names:
            start[t] = max([start[u] + T[u][0] for u in T[t][3]] + [0]) + rng.choice([0, 0, 3])
            who[t] = rng.choice(sorted(E))
        use = lambda t: {s for s in E[who[t]][1] if s == T[t][1]}
        end = max(start[t] + T[t][0] for t in T)
        sol = M.MS_RCPSPSolution(problem=m, modes={t: 1 for t in m.mode_details},
                                 schedule={**{new[t]: {'start_time': start[t], 'end_time': start[t] + T[t][0]} for t in T}, 1: {'start_time': 0, 'end_time': 0}, last: {'start_time': end, 'end_time': end}},
                                 employee_usage={**{new[t]: {who[t]: use(t)} for t in T}, 1: {}, last: {}})
        path = os.path.join(self.dir, 'x.sol')
        p.write_solution(sol, back, path)
        with open(path) as f:
            text = f.read()
        hours = [int(l.split()[0]) for l in text.split('\n')[1:] if l.strip()]
        self.same('hours', hours, sorted(set(start.values())))
        got = p.parse_results(text)
        if not self.same('read schedule', got[0], start) or not self.same('read employees', {t: int(e) for t, e in got[1].items()}, who):
            return
        again = p.recompute_solution(m, back, *got)
        self.same('schedule', {t: (x['start_time'], x['end_time']) for t, x in again.schedule.items()}, {t: (x['start_time'], x['end_time']) for t, x in sol.schedule.items()})
        self.same('employee usage', {t: {e: set(s) for e, s in x.items()} for t, x in again.employee_usage.items()}, {t: {e: set(s) for e, s in x.items()} for t, x in sol.employee_usage.items()})
        self.same('modes', {t: again.modes[t] for t in m.mode_details}, {t: 1 for t in m.mode_details})
        self.stats['solutions'] += 1
        # a torn solution is its whole lines
        for k in self.spec['cuts']:
            cut = text.split('\n')
            cut = cut[:1 + k % len(cut)]
            self.faults['torn file'] += 1
            keep = [int(l.split()[0]) for l in cut[1:] if l.strip()]
            if not self.same('torn solution', p.parse_results('\n'.join(cut))[0], {t: s for t, s in start.items() if s in keep}):
                return


    # -- files which come with the library
    def read_shipped(self):
        p, q = im(O + 'rcpsp.rcpsp_parser'), im(O + 'rcpsp_multiskill.rcpsp_multiskill_parser')
        files = sorted(p.get_data_available()) + sorted(q.get_data_available())
        path = files[self.spec['salt'] % len(files)]
        with open(path) as f:
            text = f.read()
        self.event('shipped', os.path.basename(path))
        lines = [l.rstrip() for l in text.split('\n')]
        between = lambda head, skip: [l.split() for l in lines[next(i for i, l in enumerate(lines) if l.startswith(head)) + skip:]]
        upto = lambda rows: rows[:next(i for i, r in enumerate(rows) if not r or r[0][0] in '*=')]
        if path.endswith('.def'):
            E, T = {}, {}
            for row in upto(between('ResourceID', 1)):
                E[int(row[0])] = float(row[1]), {k[:-1]: int(v) for k, v in zip(row[2::2], row[3::2])}
            for row in upto(between('TaskID', 1)):
                T[int(row[0])] = int(row[1]), row[2][:-1], int(row[3]), [int(x) for x in row[4:]]
            H = self.rng.choice([None, 1000])
            self.skilled_project_is(*q.parse_file(path, H), T, E, H)
            self.stats['shipped skilled projects'] += 1
            self.cut(text.rstrip('\n').split('\n')[:-1], q.parse_file, 'skilled project', next(i for i, l in enumerate(lines) if l.startswith('TaskID')) + 1)
            return
        head, values = between('RESOURCEAVAILABILITIES', 1)[:2]
        avail = {a + b: int(v) for a, b, v in zip(head[::2], head[1::2], values)}
        succ = {int(r[0]): [int(x) for x in r[3:]] for r in upto(between('PRECEDENCE RELATIONS', 2))}
        modes, task = {}, None
        for row in upto(between('REQUESTS/DURATIONS', 3)):
            if len(row) == 3 + len(avail):
                task, row = int(row[0]), row[1:]
            modes.setdefault(task, {})[int(row[0])] = {'duration': int(row[1]), **{r: int(v) for r, v in zip(avail, row[2:])}}
        horizon = next(int(l.split(':')[1]) for l in lines if l.startswith('horizon'))
        self.project_is(p.parse_file(path), avail, modes, succ, horizon)
        self.stats['shipped projects'] += 1


class Files(Harness):
    runs = {'quick': 24000, 'thorough': 600000}
    real = ['parsers of all benchmark formats, the problems they build, domains loaded from files, the travelling thief, written and recomputed multi-skill solutions, run unmodified',
            'files in a scratch folder']
    stub = ['benchmark files: generated; torn writes: files cut at a line']

    def gen(self, rng, tier):
        return {'kind': rng.choice(['knapsack', 'facility', 'coloring', 'tsp', 'vrp', 'ttp', 'psplib', 'psplib', 'imopse', 'imopse', 'shipped']), 'salt': rng.randrange(1 << 30),
                'size': rng.choice([1, 2, 3, 5, 10, 30]), 'other': rng.choice([0, 1, 2, 5, 12]), 'gap': rng.choice([' ', ' ', '  ', '\t']), 'end': rng.choice(['', '\n', '\n\n']),
                'multi': rng.random() < .6, 'domain': rng.random() < .5, 'cuts': [rng.randrange(1000) for _ in range(rng.choice([0, 1, 2]))]}

    def execute(self, spec, record=False):
        r = FileRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, sum(r.stats.values()) > 0, None, r.log)

    def shrink(self, spec):
        for cuts in drop_each(spec['cuts'], 0):
            yield {**spec, 'cuts': cuts}
        for k in (1, 2, 3, 5):
            if k < spec['size']:
                yield {**spec, 'size': k}
        if spec['other']:
            yield {**spec, 'other': spec['other'] // 2}
        if spec['domain']:
            yield {**spec, 'domain': False}


CHECKS = {'C43': Files()}
