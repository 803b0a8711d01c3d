"""Monte-Carlo tree search: the real templates of mcts.hh under the simulator, its trees judged after every search."""
import math

from harness.cplan import PlanHarness, num, split

STEP, SAMPLE, DIST = 0, 1, 2


def deepest(mdp):
    """Length of a longest path, None if there is a cycle."""
    n = len(mdp)
    depth, state = [0] * n, [0] * n

    def go(s):
        if state[s] == 1:
            return False
        if state[s] == 2:
            return True
        state[s] = 1
        if not end(mdp[s]):
            for _, outs in mdp[s]['a']:
                for _, _, t in outs:
                    if not go(t):
                        return False
                    depth[s] = max(depth[s], depth[t] + 1)
        state[s] = 2
        return True
    for s in range(n):
        if not go(s):
            return None
    return depth


def end(x):
    return x['t'] or x['g']


def returns(mdp, disc, full):
    """Per state, the least and the greatest return of a run from it (of a run which may stop early unless full); acyclic."""
    n = len(mdp)
    lo, hi, done = [0.] * n, [0.] * n, [False] * n

    def go(s):
        if done[s] or end(mdp[s]):
            return
        done[s] = True
        a, b = math.inf, -math.inf
        for _, outs in mdp[s]['a']:
            for _, c, t in outs:
                go(t)
                a, b = min(a, -c + disc * lo[t]), max(b, -c + disc * hi[t])
        if not full:
            a, b = min(a, 0.), max(b, 0.)
        if mdp[s]['a']:
            lo[s], hi[s] = a, b
    for s in range(n):
        go(s)
    return lo, hi


def short_returns(mdp, disc, depth, roots, early):
    """Per state of a forest, the least and the greatest return of what the rollouts from these roots leave to it."""
    b = [[math.inf, -math.inf] for _ in mdp]

    def go(s, d):
        lo = hi = 0.
        if not end(mdp[s]) and d > 0 and mdp[s]['a']:
            lo, hi = (0., 0.) if early else (math.inf, -math.inf)
            for _, outs in mdp[s]['a']:
                for _, c, t in outs:
                    x, y = go(t, d - 1)
                    lo, hi = min(lo, -c + disc * x), max(hi, -c + disc * y)
        b[s] = [min(lo, b[s][0]), max(hi, b[s][1])]
        return lo, hi
    for r in roots:
        go(r, depth)
    return b


def single_parents(mdp):
    seen = set()
    for x in mdp:
        for _, outs in ([] if end(x) else x['a']):
            for _, _, t in outs:
                if t in seen:
                    return False
                seen.add(t)
    return True


class MCTS(PlanHarness):
    driver = 'mcts'
    runs = {'quick': 40000, 'thorough': 1500000}
    rule = 'a tree search stops within its budgets, its tree is the domain with every rollout counted once, its values are ' \
           'returns of the domain, what it advises is the best it tried, and a new episode or a cleared solver starts afresh'
    real = ['cpp/src/hub/solver/mcts.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']

    def problem(self, rng, tier, spec):
        mode = rng.choice([STEP, SAMPLE, DIST, DIST, DIST])
        kind = rng.choice(['tree', 'dag', 'dag', 'graph', 'fan', 'bandit'] if mode == DIST else ['tree', 'dag', 'graph', 'fan'])
        cost = lambda: rng.choice([-1, -1, 0, 1, -2, -.5, 3, -8])
        outs = lambda: 1 if mode != DIST else rng.choice([1, 1, 2, 2, 3])
        mdp = []

        def state(stop):
            mdp.append({'g': int(stop and rng.random() < .5), 't': 0, 'h': 0., 'a': []})
            if stop and not mdp[-1]['g']:
                mdp[-1]['t'] = 1
            return len(mdp) - 1

        def edge(s, i, tos):
            mdp[s]['a'].append([i, [[p, cost(), t] for p, t in zip(split(rng, len(tos)), tos)]])
        if kind in ('tree', 'fan', 'bandit'):
            root = state(False)
            leaves = [root]
            if kind == 'tree':
                for _ in range(rng.choice([1, 2, 3, 5])):
                    s = leaves.pop(rng.randrange(len(leaves)))
                    for i in range(rng.choice([1, 2, 3])):
                        tos = [state(False) for _ in range(outs())]
                        leaves += tos
                        edge(s, i, tos)
            elif kind == 'fan':
                leaves = []
                for i in range(rng.choice([1, 2, 3, 5, 9])):
                    s = state(False)
                    edge(root, i, [s])
                    for _ in range(rng.choice([0, 0, 1, 3])):
                        t = state(False)
                        edge(s, 0, [t])
                        s = t
                    leaves.append(s)
            else:
                k = rng.choice([2, 3, 4])
                leaves = [state(False) for _ in range(k)]
                edge(root, 0, leaves)
            for s in leaves:
                mdp[s][rng.choice('gt')] = 1
        else:
            n = rng.choice([2, 3, 4, 6, 9, 13])
            for _ in range(n):
                state(False)
            width = rng.choice([1, 2, 3, n])
            for s in range(n):
                stop = s == n - 1 or (s > 0 and rng.random() < .15)
                if stop and (kind == 'dag' or rng.random() < .8):
                    mdp[s][rng.choice('gt')] = 1
                    continue
                for i in range(rng.choice([1, 1, 2, 3, 4])):
                    pool = list(range(s + 1, min(n, s + 1 + width))) if kind == 'dag' else list(range(n))
                    edge(s, i, rng.sample(pool, min(len(pool), outs())))
        for s, x in enumerate(mdp):
            if end(x) and rng.random() < .4:        # a domain may well answer what is applicable where it ends
                edge(s, 0, [rng.randrange(len(mdp))])
        spec['mdp'] = mdp
        longest = deepest(mdp)
        cyclic = longest is None
        depth = rng.choice([1, 2, 3, 5, 8, 12]) if cyclic or rng.random() < .3 else rng.choice([1000, max(1, max(longest)), 0 if rng.random() < .1 else 40])
        disc = rng.choice([1., 1., .9, .5])
        big = kind == 'bandit' and rng.random() < .8
        rollouts = rng.choice([200, 400]) if big else rng.choice([0, 1, 1, 2, 3, 5, 10, 25, 25 if cyclic else 60])
        time = rng.choice([10 ** 8, 10 ** 8, 10 ** 8, 0, 1, 20, 500])
        hcount = 0 if cyclic or rng.random() < .6 else rng.choice([1, 2, 10])
        if hcount:
            lo, hi = returns(mdp, disc, depth > max(longest))
            for x, a, b in zip(mdp, lo, hi):
                x['h'] = rng.choice([a, b, (a + b) / 2])
        spec['params'] = [time, rollouts, depth, disc, int(rng.random() < .35), rng.choice([.7, .7, .1, 5., 0.]), hcount, mode,
                          int(rng.random() < .3)]
        if big:
            spec['params'][6] = 0
        starts = [s for s, x in enumerate(mdp) if not end(x)]
        first = 0 if kind in ('tree', 'fan', 'bandit') else rng.choice(starts)
        ops = []
        if mode == STEP or rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops += [[7, first], [4, 0]] if rng.random() < .5 else [[7, first]]
                for _ in range(rng.choice([1, 2, 3, 5])):
                    ops += [[6, rng.randrange(6)], [4, 0]]
                if rng.random() < .5:
                    first = rng.choice(starts)
        else:
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                if ops and rng.random() < .3:
                    ops += [[1, 0], [4, 0]]
                s = first if rng.random() < .6 else rng.choice(starts)
                ops += [[8, s], [4, 0]]
                if rng.random() < .5:
                    ops += [[3, rng.randrange(len(mdp))] for _ in range(rng.choice([1, 2, 3]))] + [[4, 0]]
        spec['ops'] = ops
        spec['cfg']['max_points'] = 20000000

    def valid(self, spec):
        m = spec['mdp']
        if spec['params'][7] != DIST and any(len(o) > 1 for x in m for _, o in x['a']):
            return False
        if spec['params'][7] == STEP and any(o[0] in (8, 3) for o in spec['ops']):
            return False
        if not all(x['a'] for x in m if not end(x)):
            return False
        if any(o[0] in (8, 7) and end(m[o[1]]) for o in spec['ops']):
            return False
        if spec['ops'] and spec['ops'][0][0] not in (8, 7):
            return False
        longest = deepest(m)
        if longest is None:
            return spec['params'][2] <= 12 and not spec['params'][6]
        if spec['params'][6]:
            lo, hi = returns(m, spec['params'][3], spec['params'][2] > max(longest))
            return all(a - 1e-9 <= x['h'] <= b + 1e-9 for x, a, b in zip(m, lo, hi))
        return True

    def check(self, spec, d, v):
        mdp, cfg = spec['mdp'], spec['cfg']
        time, budget, depth, disc, garbage, ucb, hcount, mode, own = spec['params']
        threads = min(cfg['workers'], spec['cap']) if spec['par'] else 1
        longest = deepest(mdp)
        steps = min(depth, max(longest) if longest else depth)
        wide = max(sum(2 + 5 * len(o) for _, o in x['a']) for x in mdp)
        slack = 1.5e6 + threads * (cfg['call_ns'] + 1e5) * (wide + 3 * steps + 8)
        st = {'total': 0, 'prefix': [], 'plan': None, 'dropped': False, 'roots': [], 'all': set()}
        dump = None
        for op, r in zip(spec['ops'], d['ops']):
            if v:
                return
            k = op[0]
            if k in (1, 7):
                st, dump = {'total': 0, 'prefix': [], 'plan': None, 'dropped': False, 'roots': [], 'all': set(), 'new': True}, None
            elif k in (6, 8) and not r.get('over'):
                st['new'] = False
                st['total'] += r['rollouts']
                st['plan'] = dump = None
                st['all'].add(r['at'])
                if k == 8 and r['at'] not in st['roots']:
                    st['roots'].append(r['at'])
                if r['rollouts'] > budget + threads - 1:
                    v.append(('more rollouts than the budget', f'{r["rollouts"]}, budget {budget}, {threads} threads'))
                if r['err'] is not None:
                    continue
                hurried = d['jumps'] or r['ns'] >= (time - 1) * 1e6
                if not d['jumps'] and r['ns'] > time * 1e6 + slack:
                    v.append(('solving goes on after its time budget', f'{r["ns"] / 1e6} ms, budget {time} ms'))
                if not hurried and r['rollouts'] < budget:
                    v.append(('solving stops before its budgets', f'{r["rollouts"]} rollouts of {budget}, {r["ns"] / 1e6} ms of {time}'))
                st['plan'] = (r['at'], r['rollouts'])
                if k == 6:
                    a = r['answer'][2]
                    if bool(r['answer'][0]) != (a is not None) or (a is None) != (r['answer'][1] is None):
                        v.append(('the policy differs from its single answers', f'{r["at"]}: {r["answer"]}'))
                    if a is None and r['rollouts'] > 0 and depth > 0:
                        v.append(('nothing is known of the start after a rollout', f'{r["at"]}'))
                    if a is not None:
                        if not any(i == a for i, _ in mdp[r['at']]['a']):
                            v.append(('an action is not applicable', f'{a} in {r["at"]}'))
                        st['prefix'] = st['prefix'] + [a]
                        st['dropped'] = st['dropped'] or bool(garbage)
            elif k == 3:
                if dump is not None:
                    p = dump['policy'].get(str(op[1]))
                    if bool(r[0]) != (p is not None) or (p is None) != (r[1] is None) or \
                            (p and (r[1] != p[0] or num(r[2]) != num(p[1]) and not garbage)):
                        v.append(('the policy differs from its single answers', f'{op[1]}: {p}, answer {r}'))
                if r[1] is not None:
                    st['prefix'] = st['prefix'] + [r[1]]
                    st['dropped'] = st['dropped'] or bool(garbage)
                    if garbage:
                        dump = st['plan'] = None
            elif k == 4:
                dump = r
                self.tree(spec, r, st, longest, v)

    def tree(self, spec, r, st, longest, v):
        mdp, cfg = spec['mdp'], spec['cfg']
        time, budget, depth, disc, garbage, ucb, hcount, mode, own = spec['params']
        nodes = {int(s): x for s, x in r['tree'].items()}
        if r['prefix'] != st['prefix']:
            v.append(('the actions taken are not those remembered', f'{r["prefix"]}, taken {st["prefix"]}'))
        if st.get('new') and (nodes or r['policy'] or r['explored']):
            v.append(('a cleared solver remembers', f'{sorted(nodes)}'))
        if r['explored'] != len(nodes):
            v.append(('the number of explored states is wrong', f'{r["explored"]}, {len(nodes)} nodes'))
        full = longest is not None and depth > max(longest)
        bounds = returns(mdp, disc, full) if longest is not None else None
        known = single_parents(mdp) and full and not st['dropped'] and len(st['roots']) < 2
        forest = single_parents(mdp) and bounds and not hcount and len(st['all']) == 1
        short = forest and short_returns(mdp, disc, depth, st['all'], bool(spec['par']))
        roll = 0
        for s, (term, visits, value, acts) in nodes.items():
            value = num(value)
            x = mdp[s]
            if bool(term) != bool(end(x)):
                v.append(('a node is wrong about the end of the episode', f'{s}: terminal {bool(term)}'))
                return
            if acts and sorted(a[0] for a in acts) != sorted(i for i, _ in x['a']):
                v.append(('the actions of a node are not those of the domain', f'{s}: {sorted(a[0] for a in acts)}'))
                return
            if acts and end(x):
                v.append(('an episode goes on after its end', f'{s}'))
                return
            best, tried = None, 0
            for i, n, val, outs in acts:
                val = num(val)
                tried += n
                want = [o for j, o in x['a'] if j == i][0]
                if outs:
                    if len(outs) != len(want):
                        v.append(('the outcomes of an action are not those of the domain', f'{s}, {i}: {outs}, {want}'))
                        return
                    for to, rew, p in outs:
                        w = [o for o in want if o[2] == to]
                        if not w:
                            v.append(('the outcomes of an action are not those of the domain', f'{s}, {i}: {outs}, {want}'))
                        elif num(rew) != -w[0][1]:
                            v.append(('a reward is not that of the domain', f'{s}, {i}, {to}: {rew}, {-w[0][1]}'))
                        elif abs(num(p) - w[0][0]) > 1e-9:
                            v.append(('a probability is not that of the domain', f'{s}, {i}, {to}: {p}, {w[0][0]}'))
                        elif to not in nodes:
                            v.append(('an outcome has been dropped', f'{s}, {i}, {to}'))
                        if v:
                            return
                    if n and bounds:
                        lo = min(-c + disc * bounds[0][t] for _, c, t in want)
                        hi = max(-c + disc * bounds[1][t] for _, c, t in want)
                        if not lo - 1e-6 <= val <= hi + 1e-6:
                            v.append(('a value is no return of the domain', f'{s}, {i}: {val}, returns {lo} to {hi}'))
                            return
                    if known:
                        below = sum(nodes[to][1] - hcount for to, _, _ in outs)
                        if below != n:
                            v.append(('rollouts are lost or counted twice', f'{s}, {i}: {n} visits, {below} of its outcomes'))
                            return
                        if n and not hcount and all(bounds[0][t] == bounds[1][t] for _, _, t in want):
                            # each visit of an outcome is worth exactly what the domain pays from there
                            pay = {t: -c + disc * bounds[0][t] for _, c, t in want}
                            mean = sum(nodes[to][1] * pay[to] for to, _, _ in outs) / n
                            if abs(val - mean) > 1e-6 * max(1, abs(mean)):
                                v.append(('a value is not the mean of its visits', f'{s}, {i}: {val}, mean {mean}'))
                                return
                elif n:
                    v.append(('an action has been visited without outcome', f'{s}, {i}'))
                    return
                if n and (best is None or val > best):
                    best = val
            roll += visits - tried
            if visits < tried and not st['dropped']:
                v.append(('rollouts are lost or counted twice', f'{s}: {visits} visits, {tried} of its actions'))
                return
            if visits and short and not short[s][0] - 1e-6 <= value <= short[s][1] + 1e-6:
                v.append(('a value is no return of a rollout', f'{s}: {value}, returns {short[s][0]} to {short[s][1]}'))
                return
            if visits and bounds and not bounds[0][s] - 1e-6 <= value <= bounds[1][s] + 1e-6:
                v.append(('a value is no return of the domain', f'{s}: {value}, returns {bounds[0][s]} to {bounds[1][s]}'))
                return
            p = r['policy'].get(str(s))
            if (p is None) != (best is None):
                v.append(('the policy is not defined where an action has been tried', f'{s}: {p}, {acts}'))
                return
            if p is not None:
                mine = [a for a in acts if a[0] == p[0]]
                if not mine or not mine[0][1] or num(mine[0][2]) != best or num(p[1]) != best:
                    v.append(('the action advised is not the best tried', f'{s}: {p}, {acts}'))
                    return
        # every rollout adds one visit to the node it starts from, on top of those of its actions
        if not st['dropped'] and not hcount and roll != st['total']:
            v.append(('rollouts are lost or counted twice', f'{roll} in the tree, {st["total"]} done'))
            return
        if st['plan'] is None or st['dropped']:
            return
        s, n = st['plan']
        threads = min(cfg['workers'], spec['cap']) if spec['par'] else 1
        if n and s not in nodes:
            v.append(('the start is not in the tree', f'{s}'))
            return
        acts = nodes[s][3] if s in nodes else []
        m = sum(len(o) for _, o in mdp[s]['a'])
        if depth > 0 and not hcount and n >= m * threads and not all(a[1] for a in acts):
            v.append(('an action is never tried', f'{n} rollouts from {s}: {acts}'))
            return
        if len(mdp[s]['a']) == 1 and m > 1 and n >= 200 and not hcount and bounds and known and n == st['total']:
            want = mdp[s]['a'][0][1]
            if all(bounds[0][t] == bounds[1][t] for _, _, t in want):
                q = [-c + disc * bounds[0][t] for _, c, t in want]
                mean = sum(p * x for (p, _, _), x in zip(want, q))
                err = (max(q) - min(q)) * (math.sqrt(math.log(2e12) / (2 * n)) + 2 * m * threads / n) + 1e-6
                if abs(num(acts[0][2]) - mean) > err:
                    v.append(('the outcomes are not drawn as the domain says', f'{s}: {acts[0][2]} after {n} rollouts, expected {mean}'))

CHECKS = {'C30': MCTS()}
