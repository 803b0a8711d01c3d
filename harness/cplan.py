"""Planners of the C++ library on generated problems, their threads, locks, clock, memory and domain calls under the
simulator in /verif/cpp."""
import hashlib
import json
import math
import random

from harness.cdriver import Driver, build, encode
from harness.common import Harness, Outcome, drop_each

INF = math.inf
STATE_OPS = (0, 3, 7, 8)           # operations on a state


def num(x):
    return {'inf': INF, '-inf': -INF, 'nan': math.nan}.get(x, x) if isinstance(x, str) else x


# ------------------------------------------------------------------------------------------------ problems
def graph(rng, n, dag=False, cost=None, labels=None):
    """A deterministic transition graph: per state, (action, successor, cost)."""
    cost = cost or (lambda: rng.choice([1, 1, 1, 2, 3, 5, .5, .25, 8]))
    style = rng.choice(['sparse', 'dense', 'chain', 'layers', 'mixed'])
    out = []
    for s in range(n):
        k = {'sparse': rng.choice([0, 1, 1, 2, 2, 3]), 'dense': rng.randint(2, 5), 'chain': rng.choice([1, 1, 2, 3]),
             'layers': rng.randint(1, 4), 'mixed': rng.choice([0, 1, 2, 3, 5])}[style]
        acts = []
        for i in range(k):
            if style == 'chain':
                t = rng.choice([s + 1, s + 1, s + 2, rng.randrange(n)])
            elif style == 'layers':
                t = s + rng.randint(1, 4)
            else:
                t = rng.randrange(n)
            if dag:
                t = max(t, s + 1)
            if t >= n:
                if dag and s == n - 1:
                    continue
                t = n - 1 if dag else t % n
            acts.append([i, t, cost()])
        out.append(acts)
    return out


def sched_cfg(rng, tier, par, n_calls=400):
    p = rng.choice([.02, .1, .3, .7])
    return {'workers': rng.choice([2, 2, 3, 4, 8]) if par else 1, 'mode': rng.choice([0, 0, 1]), 'p': p,
            'changes': rng.randint(1, 6),
            'stall': [rng.randrange(9), rng.randrange(600), rng.choice([20, 200, 2000])] if par and rng.random() < .4 else [-1, 0, 0],
            'call_ns': rng.choice([0, 1000, 1000000, 30000000]), 'jump': [0, 0], 'fail': 0,
            'fine': rng.choice([0, 0, 3, 10, 40, 200]) if par else 0, 'reuse': rng.randrange(2), 'pad': rng.choice([0, 0, 5]), 'max_points': 2000000}


class PlanHarness(Harness):
    """gen_problem(rng, tier, spec) fills mdp, params, ops; check(spec, ops, v) judges the answers."""
    driver = ''
    stub = ['domain: a generated transition model, every call of it is a scheduling point and takes time',
            'threads: fibers of a seeded scheduler; mutexes, atomics, random device and clocks: simulated',
            'heap: an arena at a fixed address whose fresh and freed memory is poisoned', 'logging: dropped']
    assumptions = ['sequentially consistent memory; preemption happens at locks, atomics, domain calls and clock readings',
                   'the parallel algorithms of the C++ library run every element once on one of several threads']
    max_workers = 8

    def prepare(self):
        build([self.driver])

    def gen(self, rng, tier):
        par = rng.random() < .6
        spec = {'sched_seed': rng.getrandbits(48), 'par': int(par), 'cap': rng.choice([1, 2, 3, 4]) if par else 1,
                'hashmod': rng.choice([0, 0, 1, 3]), 'cfg': sched_cfg(rng, tier, par)}
        self.problem(rng, tier, spec)
        if not par and rng.random() < .25:
            spec['cfg']['fail'] = rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55, rng.randint(1, 300)])
        if rng.random() < .15:
            spec['cfg']['jump'] = [rng.randint(1, 60), rng.choice([10 ** 9, 10 ** 12, -3 * 10 ** 8])]
        return spec

    def problem(self, rng, tier, spec):
        raise NotImplementedError

    def check(self, spec, d, v):
        raise NotImplementedError

    def valid(self, spec):
        return True

    def expected_error(self, spec, op, err):
        return False

    def execute(self, spec, record=False):
        d = Driver.get(self.driver).run(encode(spec))
        v = []
        if d['fail']:
            v.append((d['fail'].split(':')[0].strip()[:60], d['fail']))
        else:
            injected = 0
            for op, r in zip(spec['ops'], d['ops']):
                if isinstance(r, dict) and r.get('err') is not None:
                    if r['err'] == 'injected domain failure':
                        injected += 1
                    elif not self.expected_error(spec, op, r['err']):
                        v.append(('solving fails', f'solve {op}: {r["err"]}'))
            if d['failed'] != injected:
                v.append(('the failure of the domain is not reported', f'{d["failed"]} failures, {injected} reported'))
            self.check(spec, d, v)
        faults = {}
        if d['failed']:
            faults['domain failure'] = d['failed']
        if d['jumps']:
            faults['clock jump'] = d['jumps']
        if d['stalled']:
            faults['stalled thread (decisions)'] = d['stalled']
        if d['switches']:
            faults['thread switches'] = d['switches']
        if spec['cfg']['reuse']:
            faults['memory reuse'] = 1
        st = {'domain calls': d['calls'], 'lock contention': d['contended'], 'parallel runs': int(d['fibers'] > 1),
              'solves': sum(isinstance(o, dict) and 'err' in o for o in d['ops']), 'max threads': d['fibers'], 'max domain calls at a time': d['deepest'],
              'preemptions at memory accesses': d['fine'], 'overlapping domain calls': int(d['deepest'] > 1)}
        log = []
        if record:
            log = [json.dumps(spec)] + [f'{op} -> {json.dumps(r)}' for op, r in zip(spec['ops'], d['ops'])] + \
                  [json.dumps({k: x for k, x in d.items() if k != 'ops'})]
        h = hashlib.blake2b((json.dumps(d['ops']) + str(d['fail']) + d['hash'] + str(d['points']) + str(d['ns'])).encode(),
                            digest_size=16)
        return Outcome(v, st, faults, h.hexdigest(), d['points'], d['ns'] / 1e9, d['calls'] > 3,
                       [list(x) for x in d['trace']], log)

    def shrink(self, spec):
        spec = {k: x for k, x in spec.items() if k != 'trace'}
        for c in self.smaller(spec):
            if self.valid(c):
                yield c

    def smaller(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        m = spec['mdp']
        # a state nobody leads to
        used = {o[1] for o in spec['ops'] if o[0] in STATE_OPS} | {t for s in m for a in s['a'] for _, _, t in a[1]}
        for s in reversed(range(len(m))):
            if s not in used and len(m) > 1:
                mv = lambda t: t - (t > s)
                yield {**spec, 'mdp': [{**x, 'a': [[i, [[p, c, mv(t)] for p, c, t in outs]] for i, outs in x['a']]}
                                       for j, x in enumerate(m) if j != s],
                       'ops': [[a, mv(b) if a in STATE_OPS else b] for a, b in spec['ops']]}
        for s in range(len(m)):
            if m[s]['a']:
                yield {**spec, 'mdp': m[:s] + [{**m[s], 'a': []}] + m[s + 1:]}
        for s in range(len(m)):
            for k in range(len(m[s]['a'])):
                if len(m[s]['a']) > 1:
                    yield {**spec, 'mdp': m[:s] + [{**m[s], 'a': m[s]['a'][:k] + m[s]['a'][k + 1:]}] + m[s + 1:]}
        for s in range(len(m)):
            for k, (i, outs) in enumerate(m[s]['a']):
                if len(outs) > 1:
                    for j in range(len(outs)):
                        rest = [list(o) for o in outs[:j] + outs[j + 1:]]
                        z = sum(o[0] for o in rest)
                        if z <= 0:
                            continue
                        rest[0][0] += 1 - z
                        yield {**spec, 'mdp': m[:s] + [{**m[s], 'a': m[s]['a'][:k] + [[i, rest]] + m[s]['a'][k + 1:]}] + m[s + 1:]}
        c = spec['cfg']
        for k, x in (('fail', 0), ('jump', [0, 0]), ('stall', [-1, 0, 0]), ('fine', 0), ('reuse', 0), ('pad', 0), ('call_ns', 1000), ('workers', 2)):
            if c[k] != x and not (k == 'workers' and c[k] < 2):
                yield {**spec, 'cfg': {**c, k: x}}
        if spec['hashmod']:
            yield {**spec, 'hashmod': 0}
        if spec['par']:
            yield {**spec, 'par': 0, 'cap': 1, 'cfg': {**c, 'workers': 1}}


def shortest(mdp):
    """Cost of a cheapest path to a goal, per state."""
    d = [0. if s['g'] else INF for s in mdp]
    changed = True
    while changed:
        changed = False
        for i, s in enumerate(mdp):
            if s['g']:
                continue
            for _, outs in s['a']:
                x = outs[0][1] + d[outs[0][2]]
                if x < d[i]:
                    d[i], changed = x, True
    return d


def consistent(rng, mdp, d):
    """A heuristic function which never overestimates, and never drops by more than the cost of a step."""
    k = rng.choice(['zero', 'exact', 'half', 'random', 'random', 'random'])
    if k == 'zero':
        return [0.] * len(mdp)
    if k in ('exact', 'half'):
        f = 1. if k == 'exact' else .5
        return [f * (x if x < INF else 1000.) for x in d]
    h = [0. if s['g'] else rng.choice([0, 1, 2, 5, 10, 40, .5]) for s in mdp]
    changed = True
    while changed:
        changed = False
        for i, s in enumerate(mdp):
            for _, outs in s['a']:
                x = outs[0][1] + h[outs[0][2]]
                if x < h[i]:
                    h[i], changed = x, True
    return h


def follow(mdp, answers, s):
    """Follows the actions of a table of answers from s: (cost, states) or (None, why not)."""
    cost, seen = 0., []
    while not mdp[s]['g']:
        if s in seen:
            return None, f'it loops through {seen + [s]}'
        seen.append(s)
        a = answers[s]
        if not a[0]:
            return None, f'it leads to {s} where nothing is defined'
        o = [outs[0] for i, outs in mdp[s]['a'] if i == a[1]]
        if not o:
            return None, f'action {a[1]} is not applicable in {s}'
        cost += o[0][1]
        s = o[0][2]
    return cost, seen + [s]


def det_problem(rng, tier, spec, n=None, goals=None):
    n = n or rng.choice([2, 4, 6, 8, 12, 16, 24] + ([40, 60] if tier == 'thorough' else []))
    zero = rng.random() < .2
    g = graph(rng, n, cost=(lambda: rng.choice([0, 0, 1, 2])) if zero else None)
    ng = rng.choice([0, 1, 1, 1, 2, 3])
    goals = set(rng.sample(range(n), min(ng, n)))
    mdp = []
    for s in range(n):
        acts, seen = [], {}
        for i, t, c in g[s]:
            if t in seen and rng.random() < .5:
                c = seen[t]
            seen[t] = c
            acts.append([i, [[1., c, t]]])
        mdp.append({'g': int(s in goals), 't': 0, 'h': 0., 'a': acts})
    spec['mdp'] = mdp


class AStar(PlanHarness):
    driver = 'astar'
    runs = {'quick': 180000, 'thorough': 6000000}
    rule = 'what an A* solver with a consistent heuristic claims solved is solved, at minimal cost and with the cost it says'
    real = ['cpp/src/hub/solver/astar.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']

    def problem(self, rng, tier, spec):
        det_problem(rng, tier, spec)
        mdp = spec['mdp']
        h = consistent(rng, mdp, shortest(mdp))
        for s, x in zip(mdp, h):
            s['h'] = x
        spec['params'] = []
        ops, n = [], len(mdp)
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if ops and rng.random() < .2:
                ops.append([1, 0])
            ops += [[0, rng.choice([0, 0, rng.randrange(n)])], [2, 0]]
        spec['ops'] = ops

    def valid(self, spec):
        m = spec['mdp']
        return all(s['h'] <= o[1] + m[o[2]]['h'] for s in m for _, outs in s['a'] for o in outs)

    def check(self, spec, d, v):
        mdp = spec['mdp']
        best = shortest(mdp)
        last, good = None, False
        for op, r in zip(spec['ops'], d['ops']):
            if op[0] == 0:
                last, good = op[1], r['err'] is None
            elif op[0] == 1:
                last = None
            elif op[0] == 2:
                ans = [[x[0], x[1], num(x[2])] for x in r]
                if last is not None and good and not mdp[last]['g'] and bool(ans[last][0]) != (best[last] < INF):
                    v.append(('a solvable problem is not solved' if best[last] < INF else 'an unsolvable problem is claimed solved',
                              f'from {last}'))
                if last is not None and good and mdp[last]['g'] and ans[last][2] != 0:
                    v.append(('the value of a goal is not zero', f'{last}: {ans[last][2]}'))
                for s, a in enumerate(ans):
                    if not a[0] or mdp[s]['g']:
                        continue
                    cost, why = follow(mdp, ans, s)
                    if cost is None:
                        v.append(('the plan does not reach a goal', f'from {s}: {why}'))
                    else:
                        if cost != best[s]:
                            v.append(('the plan is not the cheapest', f'from {s}: {cost} by {why}, cheapest {best[s]}'))
                        if a[2] != cost:
                            v.append(('the value is not the cost of the plan', f'{s}: value {a[2]}, cost {cost}'))


# ------------------------------------------------------------------------------------------------ uncertain problems
def split(rng, k):
    """k positive multiples of 1/16 which sum to one."""
    cuts = sorted(rng.sample(range(1, 16), k - 1))
    return [(b - a) / 16 for a, b in zip([0] + cuts, cuts + [16])]


def mdp_problem(rng, tier, spec, dag, dead, proper=False, costs=(1, 1, 2, 3, 5, .5, 8)):
    """dead: states without actions which are not goals may exist. proper: some policy reaches a goal from everywhere."""
    n = rng.choice([2, 3, 4, 6, 8, 10, 14] + ([20, 30, 45] if tier == 'thorough' else [20]))
    goals = set(rng.sample(range(n), min(n, rng.choice([1, 1, 1, 2, 3]))))
    if dag and rng.random() < .8:
        goals.add(n - 1)
    width = rng.choice([2, 3, 5, n])
    mdp = []
    for s in range(n):
        acts = []
        for i in range(rng.choice([1, 1, 2, 2, 3, 4])):
            pool = list(range(s + 1, min(n, s + 1 + width))) if dag else \
                (list(range(max(0, s - width), min(n, s + 1 + width))) if rng.random() < .5 else list(range(n)))
            if not pool:
                break
            k = min(len(pool), rng.choice([1, 1, 2, 2, 3, 4]))
            tos = rng.sample(pool, k)
            acts.append([i, [[p, rng.choice(costs), t] for p, t in zip(split(rng, k), tos)]])
        if dead and rng.random() < .12:
            acts = []
        mdp.append({'g': int(s in goals), 't': 0, 'h': 0., 'a': acts})
    if proper:
        fix_proper(rng, mdp, costs, [s for s, x in enumerate(mdp) if not x['a'] and not x['g']] if dead else ())
    spec['mdp'] = mdp


def fix_proper(rng, mdp, costs, dead=()):
    """Adds actions until a goal can be reached with certainty from every state which is not dead."""
    while True:
        bad = [s for s, ok in enumerate(reachable_surely(mdp)) if not ok and s not in dead]
        if not bad:
            return
        s = rng.choice(bad)
        good = [t for t in range(len(mdp)) if t not in bad and t not in dead]
        i = max([a[0] for a in mdp[s]['a']], default=-1) + 1
        if rng.random() < .5:
            mdp[s]['a'].append([i, [[1., rng.choice(costs), rng.choice(good)]]])
        else:
            x = rng.choice(good)
            y = rng.choice([t for t in range(len(mdp)) if t != x and t not in dead] or [x])
            if x == y:
                mdp[s]['a'].append([i, [[1., rng.choice(costs), x]]])
            else:
                mdp[s]['a'].append([i, [[.75, rng.choice(costs), x], [.25, rng.choice(costs), y]]])


def reachable_surely(mdp):
    """States from which some policy reaches a goal with probability one."""
    w = set(range(len(mdp)))
    while True:
        r = {s for s in w if mdp[s]['g']}
        grow = True
        while grow:
            grow = False
            for s in w - r:
                for _, outs in mdp[s]['a']:
                    if all(t in w for p, _, t in outs if p > 0) and any(t in r for p, _, t in outs if p > 0):
                        r.add(s)
                        grow = True
                        break
        if r == w:
            return [s in w for s in range(len(mdp))]
        w = r


def q_value(mdp, val, a, disc):
    return sum(p * (c + disc * val[t]) for p, c, t in a[1] if p > 0)


def optimal(mdp, disc, dead=INF, eps=1e-12):
    """Optimal expected cost to a goal (value iteration from below on the states that surely can reach one)."""
    n = len(mdp)
    if disc < 1:
        ok = [bool(s['g'] or s['a']) for s in mdp]
        # a state is worth something finite if some action avoids running into states without actions
        ch = True
        while ch:
            ch = False
            for s in range(n):
                if ok[s] and not mdp[s]['g'] and not any(all(ok[t] for p, _, t in outs if p > 0) for _, outs in mdp[s]['a']):
                    ok[s], ch = False, True
    else:
        ok = reachable_surely(mdp)
    v = [0. if ok[s] else dead for s in range(n)]
    for _ in range(200000):
        d = 0.
        for s in reversed(range(n)):
            if mdp[s]['g'] or not ok[s]:
                continue
            x = min(q_value(mdp, v, a, disc) for a in mdp[s]['a'] if all(ok[t] for p, _, t in a[1] if p > 0))
            d = max(d, abs(x - v[s]))
            v[s] = x
        if d < eps:
            break
    return v


def close(a, b, tol=1e-7):
    return a == b or (a is not None and b is not None and abs(a) < INF and abs(b) < INF and abs(a - b) <= tol * max(1., abs(a), abs(b)))


def admissible(rng, mdp, best):
    k = rng.choice(['zero', 'exact', 'scaled', 'random', 'random'])
    f = {'zero': lambda: 0., 'exact': lambda: 1., 'scaled': lambda c=rng.choice([.25, .5, .75]): c,
         'random': lambda: rng.choice([0., .25, .5, .75, 1.])}[k]
    far = rng.choice([0., 5., 100., INF])
    return [0. if s['g'] else (f() * b if b < INF else far) for s, b in zip(mdp, best)]


def policy_states(mdp, answers, s):
    """States reached from s by the actions of a table of answers: (states, None) or (states, why it is no policy)."""
    todo, seen = [s], {s}
    while todo:
        x = todo.pop()
        if mdp[x]['g']:
            continue
        a = answers[x]
        if a is None or not a[0]:
            return seen, f'nothing is defined in {x}'
        o = [outs for i, outs in mdp[x]['a'] if i == a[1]]
        if not o:
            return seen, f'action {a[1]} is not applicable in {x}'
        for p, _, t in o[0]:
            if p > 0 and t not in seen:
                seen.add(t)
                todo.append(t)
    return seen, None


def solve_ops(rng, n, more=()):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        if ops and rng.random() < .15:
            ops.append([1, 0])
        ops += [[0, rng.choice([0, 0, 0, rng.randrange(n)])], [2, 0]] + [list(x) for x in more]
    return ops


class AOStar(PlanHarness):
    driver = 'aostar'
    runs = {'quick': 100000, 'thorough': 4000000}
    rule = 'what AO* claims solved is an optimal policy closed under all outcomes, with its expected cost; cycles are reported'
    real = ['cpp/src/hub/solver/aostar.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']

    def problem(self, rng, tier, spec):
        cyclic = rng.random() < .15
        mdp_problem(rng, tier, spec, dag=not cyclic, dead=rng.random() < .5)
        disc = rng.choice([1., 1., 1., .9, .5])
        best = optimal(spec['mdp'], disc)
        for s, x in zip(spec['mdp'], admissible(rng, spec['mdp'], best)):
            s['h'] = x
        spec['cyclic'] = int(cyclic)
        spec['params'] = [disc, rng.choice([1, 1, 1, 2, 3, 10]), 1 if cyclic else rng.choice([0, 0, 1])]
        spec['ops'] = solve_ops(rng, len(spec['mdp']))

    def valid(self, spec):
        m, best = spec['mdp'], optimal(spec['mdp'], spec['params'][0])
        return (spec['cyclic'] or all(o[2] > i for i, s in enumerate(m) for _, outs in s['a'] for o in outs)) and \
            all(s['h'] <= b * (1 + 1e-9) for s, b in zip(m, best))

    def expected_error(self, spec, op, err):
        return spec['cyclic'] and 'cycle detected' in err

    def check(self, spec, d, v):
        mdp, disc = spec['mdp'], spec['params'][0]
        best = optimal(mdp, disc)
        last, good = None, False
        for op, r in zip(spec['ops'], d['ops']):
            if op[0] == 0:
                last, good = op[1], r['err'] is None
            elif op[0] == 1:
                last = None
            elif op[0] == 2:
                ans = [[x[0], x[1], num(x[2])] for x in r]
                if last is not None and good:
                    if not mdp[last]['g'] and bool(ans[last][0]) != (best[last] < INF):
                        v.append(('a solvable problem is not solved' if best[last] < INF else
                                  'an unsolvable problem is claimed solved', f'from {last}'))
                    if mdp[last]['g'] and ans[last][2] != 0:
                        v.append(('the value of a goal is not zero', f'{last}: {ans[last][2]}'))
                check_policy(mdp, ans, best, disc, v, 1e-7)


def check_policy(mdp, ans, best, disc, v, tol, starts=None):
    val = None
    for s, a in enumerate(ans):
        if a is None or not a[0] or mdp[s]['g'] or (starts is not None and s not in starts):
            continue
        states, why = policy_states(mdp, ans, s)
        if why is not None:
            v.append(('the policy is not complete', f'from {s}: {why}'))
            continue
        if val is None:
            val = {}
        e = evaluate(mdp, ans, states, disc)
        if e is None:
            v.append(('the policy does not reach a goal', f'from {s}'))
        elif not close(e[s], best[s], tol):
            v.append(('the policy is not optimal', f'from {s}: expected cost {e[s]}, optimal {best[s]}'))
        if not close(a[2], best[s], tol):
            v.append(('the value is not the optimal expected cost', f'{s}: {a[2]}, optimal {best[s]}'))


def evaluate(mdp, ans, states, disc):
    """Expected costs of a complete policy on its states, or None if it can loop for ever."""
    st = [x for x in states if not mdp[x]['g']]
    step = {x: [outs for i, outs in mdp[x]['a'] if i == ans[x][1]][0] for x in st}
    if disc == 1:
        r = {x for x in states if mdp[x]['g']}
        grow = True
        while grow:
            grow = False
            for x in st:
                if x not in r and any(p > 0 and t in r for p, _, t in step[x]):
                    r.add(x)
                    grow = True
        if len(r) < len(states):
            return None
    e = {x: 0. for x in states}
    for _ in range(200000):
        d = 0.
        for x in reversed(st):
            y = sum(p * (c + disc * e[t]) for p, c, t in step[x] if p > 0)
            d = max(d, abs(y - e[x]))
            e[x] = y
        if d < 1e-12:
            break
    return e


def endless(mdp):
    """Some policy can avoid goals (and states without actions) for ever."""
    w = {s for s, x in enumerate(mdp) if not x['g'] and x['a']}
    while True:
        r = {s for s in w if any(all(t in w for p, _, t in outs if p > 0) for _, outs in mdp[s]['a'])}
        if r == w:
            return bool(w)
        w = r


def steps_to_goal(mdp, ans, states):
    one = [{**x, 'a': [[i, [[p, 1., t] for p, _, t in outs]] for i, outs in x['a']]} for x in mdp]
    e = evaluate(one, ans, states, 1.)
    return None if e is None else max(e.values())


class SSP(PlanHarness):
    """Stochastic shortest path problems: every state which is no dead end can surely reach a goal."""

    def discount(self, rng, mdp):
        return rng.choice([.9, .5]) if not endless(mdp) and rng.random() < .3 else 1.

    def ssp(self, rng, tier, spec):
        mdp_problem(rng, tier, spec, dag=rng.random() < .3, dead=rng.random() < .3, proper=True)
        disc = self.discount(rng, spec['mdp'])
        best = optimal(spec['mdp'], disc)
        while max(b for b in best if b < INF) > 60:
            # too many steps to a goal: shorten the way of the worst state
            m = spec['mdp']
            s = max((s for s in range(len(m)) if best[s] < INF), key=lambda s: best[s])
            m[s]['a'].append([max(a[0] for a in m[s]['a']) + 1,
                              [[1., rng.choice([1, 3, 8, 20]), rng.choice([t for t, b in enumerate(best) if b < 10])]]])
            best = optimal(m, disc)
        for s, x in zip(spec['mdp'], admissible(rng, spec['mdp'], best)):
            s['h'] = x
        return disc

    def valid(self, spec):
        m, disc = spec['mdp'], self.get_discount(spec)
        sure = reachable_surely(m)
        if not all(ok or not m[s]['a'] for s, ok in enumerate(sure)) or (disc < 1 and endless(m)):
            return False
        if any(o[0] == 0 and not sure[o[1]] for o in spec['ops']):
            return False
        best = optimal(m, disc)
        return max(b for b in best if b < INF) <= 200 and all(s['h'] <= b * (1 + 1e-9) for s, b in zip(m, best))

    def starts(self, mdp):
        return [s for s, ok in enumerate(reachable_surely(mdp)) if ok]

    def check_epsilon(self, mdp, ans, best, disc, eps, v, s):
        """The policy from s is complete, proper, and within epsilon per expected step of the optimum."""
        if mdp[s]['g']:
            if ans[s][2] != 0:
                v.append(('the value of a goal is not zero', f'{s}: {ans[s][2]}'))
            return
        states, why = policy_states(mdp, ans, s)
        if why is not None:
            v.append(('the policy is not complete', f'from {s}: {why}'))
            return
        e = evaluate(mdp, ans, states, disc)
        k = steps_to_goal(mdp, ans, states)
        if e is None or k is None:
            v.append(('the policy does not reach a goal', f'from {s}'))
            return
        tol = eps * (1 + k) + 1e-6
        if e[s] > best[s] + tol:
            v.append(('the policy is not optimal', f'from {s}: expected cost {e[s]}, optimal {best[s]}, {k} steps'))
        if not best[s] - tol <= ans[s][2] <= best[s] + 1e-6:
            v.append(('the value is not the optimal expected cost', f'{s}: {ans[s][2]}, optimal {best[s]}, {k} steps'))

    def check_dump(self, ans, r, v):
        for s, a in enumerate(ans):
            p = r['policy'].get(str(s))
            if (p is not None) != bool(a[0]) or (p is not None and (p[0] != a[1] or num(p[1]) != a[2])):
                v.append(('the policy differs from its single answers', f'{s}: {p}, answer {a}'))
        known = sum(a[2] is not None for a in ans)
        if r['explored'] != known:
            v.append(('the number of explored states is wrong', f'{r["explored"]}, {known} states are known'))


class ILAOStar(SSP):
    driver = 'ilaostar'
    runs = {'quick': 40000, 'thorough': 2000000}
    rule = 'when ILAO* returns, its policy from the start is complete, reaches a goal surely and is epsilon-optimal'
    real = ['cpp/src/hub/solver/ilaostar.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']

    def get_discount(self, spec):
        return spec['params'][0]

    def problem(self, rng, tier, spec):
        disc = self.ssp(rng, tier, spec)
        spec['params'] = [disc, rng.choice([.001, .001, .1, 1e-5])]
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if ops and rng.random() < .15:
                ops.append([1, 0])
            ops += [[0, rng.choice(self.starts(spec['mdp']))], [2, 0], [4, 0]]
        spec['ops'] = ops

    def check(self, spec, d, v):
        mdp = spec['mdp']
        disc, eps = spec['params']
        best = optimal(mdp, disc)
        last, good, ans = None, False, None
        for op, r in zip(spec['ops'], d['ops']):
            if op[0] == 0:
                last, good = op[1], r['err'] is None
            elif op[0] == 1:
                last = None
            elif op[0] == 2:
                ans = [[x[0], x[1], num(x[2])] for x in r]
                if last is not None and good:
                    self.check_epsilon(mdp, ans, best, disc, eps, v, last)
            elif op[0] == 4 and ans is not None:
                self.check_dump(ans, r, v)


class LRTDP(SSP):
    driver = 'lrtdp'
    runs = {'quick': 40000, 'thorough': 1500000}
    rule = 'LRTDP stops within its budgets, its values never exceed the optimum, and when it stops before them its policy ' \
           'from the start is complete, reaches a goal surely and is epsilon-optimal'
    real = ['cpp/src/hub/solver/lrtdp.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']

    def get_discount(self, spec):
        return spec['params'][4]

    def problem(self, rng, tier, spec):
        disc = self.ssp(rng, tier, spec)
        labels = int(rng.random() < .75)
        time_budget = rng.choice([10 ** 8, 10 ** 8, 10 ** 8, 1, 20, 500])
        rollouts = rng.choice([100000, 100000, 0, 1, 2, 5, 30]) if labels else rng.choice([1, 2, 5, 20, 60])
        depth = rng.choice([1000, 1000, 1000, 1, 2, 4, 8])
        if depth < 1000:
            rollouts = min(rollouts, 60)
        eps = rng.choice([.001, .001, .1, 1e-4])
        garbage = int(rng.random() < .35)
        spec['params'] = [labels, time_budget, rollouts, depth, disc, eps, garbage]
        starts = self.starts(spec['mdp'])
        n = len(spec['mdp'])
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if ops and rng.random() < .2:
                ops.append([1, 0])
            s = rng.choice(starts)
            ops += [[0, s], [4, 0]]
            if garbage:
                # an agent which acts: what it asks for drops nodes
                walk = []
                for _ in range(rng.choice([0, 1, 2, 4])):
                    walk += [[3, s], [4, 0]]
                    a = [a for a in spec['mdp'][s]['a']]
                    if not a:
                        break
                    s = rng.choice(rng.choice(a)[1])[2] if rng.random() < .9 else rng.randrange(n)
                ops += walk
            else:
                ops.append([2, 0])
        spec['ops'] = ops

    def check(self, spec, d, v):
        mdp, cfg = spec['mdp'], spec['cfg']
        labels, budget, rollouts, depth, disc, eps, garbage = spec['params']
        best = optimal(mdp, disc)
        last, ans, dump = None, None, None
        threads = min(cfg['workers'], spec['cap']) if spec['par'] else 1
        expand = max(2 + sum(2 + 4 * len(outs) for _, outs in s['a']) for s in mdp)
        # every thread may be at the beginning of an expansion when the time is up
        slack = 1.5e6 + (threads * expand + 4) * (cfg['call_ns'] + 1e4) + threads * 1e5
        for op, r in zip(spec['ops'], d['ops']):
            if op[0] == 0:
                last, ans, dump = (op[1] if r['err'] is None else None), None, None
                ended = r
                if r['err'] is None and not d['jumps'] and r['ns'] > budget * 1e6 + slack:
                    v.append(('solving goes on after its time budget', f'{r["ns"] / 1e6} ms, budget {budget} ms'))
            elif op[0] == 1:
                last = ans = dump = None
            elif op[0] == 4:
                dump = r
                full = {int(s): [1, p[0], num(p[1])] for s, p in r['policy'].items()}
                table = [full.get(s, [0, None, None]) for s in range(len(mdp))]
                self.known(mdp, table, best, v)
                if ans is not None and not garbage:
                    self.check_dump(ans, r, v)
                if last is not None and ended is not None:
                    self.ended(spec, d, mdp, table, best, last, ended, r, threads, v)
                    ended = None
            elif op[0] == 2:
                ans = [[x[0], x[1], num(x[2])] for x in r]
                self.known(mdp, ans, best, v)
                if last is not None and mdp[last]['g'] and ans[last][2] != 0:
                    v.append(('the value of a goal is not zero', f'{last}: {ans[last][2]}'))
                if dump is not None:
                    self.check_dump(ans, dump, v)
            elif op[0] == 3 and dump is not None:
                # answers to an agent are those of the policy there was
                p = dump['policy'].get(str(op[1]))
                if bool(r[0]) != (p is not None) or (p is not None and r[1] != p[0]):
                    v.append(('the policy differs from its single answers', f'{op[1]}: {p}, answer {r}'))

    def known(self, mdp, ans, best, v):
        for s, a in enumerate(ans):
            if a[0] and not any(i == a[1] for i, _ in mdp[s]['a']):
                v.append(('an action is not applicable', f'{a[1]} in {s}'))
            if a[2] is not None and not a[2] <= best[s] + 1e-6 * max(1, abs(best[s])) and not (a[2] == INF and not a[0] and not mdp[s]['a']):
                v.append(('a value exceeds the optimal expected cost', f'{s}: {a[2]}, optimal {best[s]}'))

    def ended(self, spec, d, mdp, table, best, s, solve, dump, threads, v):
        labels, budget, rollouts, depth, disc, eps, garbage = spec['params']
        if mdp[s]['g']:
            return
        n = dump['rollouts']
        if n > rollouts + threads - 1:
            v.append(('more rollouts than the budget', f'{n}, budget {rollouts}, {threads} threads'))
        if d['jumps'] or solve['ns'] >= (budget - 1) * 1e6:
            return
        if n < rollouts:
            if not labels:
                v.append(('solving stops before its budgets', f'{n} rollouts of {rollouts}, {solve["ns"] / 1e6} ms of {budget}'))
            else:
                self.check_epsilon(mdp, table, best, disc, eps, v, s)
        elif rollouts > 0 and depth > 0 and not table[s][0]:
            v.append(('nothing is known of the start after a rollout', f'{s}'))


def give_features(rng, mdp):
    """Feature vectors which tell all states apart (or not): returns whether they do."""
    n = len(mdp)
    kind = rng.choice(['binary', 'binary', 'id', 'grid', 'random', 'constant'])
    ids = list(range(n))
    rng.shuffle(ids)
    for s, x in zip(ids, mdp):
        if kind == 'binary':
            x['f'] = [s >> b & 1 for b in range(max(1, (n - 1).bit_length()))]
        elif kind == 'id':
            x['f'] = [s] + [rng.randrange(2) for _ in range(2)]
        elif kind == 'grid':
            x['f'] = [s % 3, s // 3]
        elif kind == 'random':
            x['f'] = [rng.randrange(3) for _ in range(3)]
        else:
            x['f'] = [0]
    return len({tuple(x['f']) for x in mdp}) == n


def reaches(mdp):
    """States from which a goal can be reached without passing through a terminal state."""
    r = {s for s, x in enumerate(mdp) if x['g']}
    while True:
        m = {s for s, x in enumerate(mdp) if not x['t'] and any(o[0][2] in r for _, o in x['a'])} | r
        if m == r:
            return r
        r = m


class WidthPlan(PlanHarness):
    terminals = False

    def problem(self, rng, tier, spec):
        det_problem(rng, tier, spec, n=rng.choice([2, 3, 4, 6, 8, 12, 16] + ([24, 40] if tier == 'thorough' else [20])))
        mdp = spec['mdp']
        unique = give_features(rng, mdp)
        for s in mdp:
            s['h'] = rng.choice([0, 1, 2, 3, 10]) if not s['g'] else 0
            if self.terminals and not s['g'] and rng.random() < .1:
                s['t'] = 1
        if rng.random() < .3:
            for s, d in zip(mdp, shortest(mdp)):
                s['h'] = d if d < INF else 1e9
        n = len(mdp)
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            if ops and rng.random() < .15:
                ops.append([1, 0])
            ops += [[0, rng.choice([0, rng.randrange(n), rng.randrange(n)])], [2, 0], [4, 0]]
        spec['ops'] = ops
        spec['params'] = [int(unique and rng.random() < .4)] + self.own_params(rng)

    def own_params(self, rng):
        return []

    def valid(self, spec):
        u = len({tuple(s['f']) for s in spec['mdp']}) == len(spec['mdp'])
        return u or not spec['params'][0]

    def complete(self, spec):
        return True

    def check(self, spec, d, v):
        mdp = spec['mdp']
        can = reaches(mdp)
        last, ans, solve = None, None, None
        for op, r in zip(spec['ops'], d['ops']):
            if op[0] == 0:
                last, solve = op[1] if r['err'] is None else None, r
            elif op[0] == 1:
                last = None
            elif op[0] == 2:
                ans = [[x[0], x[1], num(x[2])] for x in r]
                if last is not None:
                    if mdp[last]['g']:
                        if ans[last][2] != 0:
                            v.append(('the value of a goal is not zero', f'{last}: {ans[last][2]}'))
                    elif ans[last][0] and last not in can:
                        v.append(('an unsolvable problem is claimed solved', f'from {last}'))
                    elif not ans[last][0] and last in can and self.complete(spec):
                        v.append(('a solvable problem is not solved', f'from {last}'))
                for s, a in enumerate(ans):
                    if not a[0] or mdp[s]['g']:
                        continue
                    cost, why = follow(mdp, ans, s)
                    if cost is None:
                        v.append(('the plan does not reach a goal', f'from {s}: {why}'))
                    elif any(mdp[x]['t'] for x in why[:-1]):
                        v.append(('the plan passes through a terminal state', f'from {s}: {why}'))
                    elif cost != a[2]:
                        v.append(('the value is not the cost of the plan', f'{s}: value {a[2]}, cost {cost}'))
            elif op[0] == 4:
                self.extra(spec, d, last, ans, r, v, solve)

    def extra(self, spec, d, last, ans, r, v, solve):
        pass


class BFWS(WidthPlan):
    driver = 'bfws'
    runs = {'quick': 150000, 'thorough': 5000000}
    rule = 'BFWS finds a plan if there is one, and the plan reaches a goal at the cost it says'
    real = ['cpp/src/hub/solver/bfws.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']


class IW(WidthPlan):
    driver = 'iw'
    runs = {'quick': 200000, 'thorough': 6000000}
    rule = 'the plans of IW reach a goal at the cost it says; with features which tell states apart it finds one if there is one'
    real = ['cpp/src/hub/solver/iw.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']
    terminals = True

    def own_params(self, rng):
        return [rng.choice([0, 0, 1, 50, 1000, 10 ** 6]), rng.choice([0, 0, 0, 1, 2])]

    def complete(self, spec):
        return len({tuple(s['f']) for s in spec['mdp']}) == len(spec['mdp'])

    def extra(self, spec, d, last, ans, r, v, solve):
        if ans is None:
            return
        sc = [[t, w, num(c)] for t, w, c in r['scores']]
        budget = spec['params'][1]
        if last is not None and sc and not d['jumps']:
            # one expansion may be under way when the time is up
            slack = 2e6 + (3 + 4 * max(len(s['a']) for s in spec['mdp'])) * (spec['cfg']['call_ns'] + 1e5)
            if solve['ns'] > max(budget, sc[0][0]) * 1e6 + slack + 10 * spec['cfg']['call_ns']:
                v.append(('solving goes on after its time budget', f'{solve["ns"] / 1e6} ms, budget {budget} ms, first plan {sc[0]}'))
        if last is not None and not d['jumps'] and [x[0] for x in sc] != sorted(x[0] for x in sc):
            v.append(('the times of the intermediate scores decrease', f'{sc}'))
        if any(a[2] < b[2] for a, b in zip(sc, sc[1:])):
            v.append(('the intermediate scores get worse', f'{sc}'))
        if last is not None and sc and not spec['mdp'][last]['g'] and sc[-1][2] != ans[last][2]:
            v.append(('the last intermediate score is not the value of the plan', f'{sc}, {ans[last]}'))
        if r['explored'] != sum(a[2] is not None for a in ans):
            v.append(('the number of explored states is wrong', f'{r["explored"]}'))
        if r['pruned'] > r['explored']:
            v.append(('more states are pruned than explored', f'{r}'))


CHECKS = {'C20': AStar(), 'C21': AOStar(), 'C22': ILAOStar(), 'C23': LRTDP(), 'C24': BFWS(), 'C25': IW()}
