"""Rollout-based width search (RIW): the real templates of riw.hh under the simulator."""
import math

from harness.cplan import PlanHarness, give_features, num
from harness.mcts import deepest, end, returns, single_parents


def optimum(mdp, disc):
    """Greatest return from every state of an acyclic problem."""
    best = [None] * len(mdp)

    def go(s):
        if best[s] is None:
            best[s] = 0. if end(mdp[s]) else max(-o[0][1] + disc * go(o[0][2]) for _, o in mdp[s]['a'])
        return best[s]
    for s in range(len(mdp)):
        go(s)
    return best


def give_ids(rng, mdp):
    n = len(mdp)
    if rng.random() < .5:
        return give_features(rng, mdp)
    ids = list(range(n))
    rng.shuffle(ids)
    more, last = rng.choice([0, 0, 1, 2]), rng.random() < .5
    for s, x in zip(ids, mdp):
        x['f'] = [s] + [rng.randrange(2) for _ in range(more)]
        if last:
            x['f'].reverse()
    return True


class RIW(PlanHarness):
    driver = 'riw'
    runs = {'quick': 40000, 'thorough': 1500000}
    rule = 'a rollout width search stops within its budgets, only does what is applicable in the episode as it is, its ' \
           'values agree with the rewards of what it advises and are optimal when it has seen everything'
    real = ['cpp/src/hub/solver/riw.hh', 'cpp/src/utils/execution.hh', 'cpp/src/utils/associative_container_deducer.hh']

    def problem(self, rng, tier, spec):
        kind = rng.choice(['tree', 'dag', 'dag', 'graph', 'graph', 'fan', 'chain'])
        cost = lambda: rng.choice([-1, -1, 0, 1, -2, -.5, 3, -8])
        mdp = []

        def state():
            mdp.append({'g': 0, 't': 0, 'h': 0., 'a': []})
            return len(mdp) - 1

        def edge(s, i, t):
            mdp[s]['a'].append([i, [[1., cost(), t]]])
        if kind in ('tree', 'fan'):
            leaves = [state()]
            for _ in range(rng.choice([1, 2, 3, 5])):
                s = leaves.pop(rng.randrange(len(leaves)))
                for i in range(rng.choice([1, 2, 3] if kind == 'tree' else [3, 5, 9])):
                    t = state()
                    edge(s, i, t)
                    leaves.append(t)
            for s in leaves:
                mdp[s][rng.choice('gt')] = 1
        elif kind == 'chain':
            n = rng.choice([3, 4, 5, 7, 9])
            for s in range(n):
                state()
            for s in range(n - 1):
                edge(s, rng.choice([0, 1, 5]), s + 1)
            mdp[-1][rng.choice('gt')] = 1
        else:
            n = rng.choice([2, 3, 4, 6, 9, 13])
            for _ in range(n):
                state()
            width = rng.choice([1, 2, 3, n])
            for s in range(n):
                stop = s == n - 1 or (s > 0 and rng.random() < .15)
                if stop and (kind == 'dag' or rng.random() < .8):
                    mdp[s][rng.choice('gt')] = 1
                    continue
                for i in range(rng.choice([1, 1, 2, 3, 4])):
                    pool = list(range(s + 1, min(n, s + 1 + width))) if kind == 'dag' else list(range(n))
                    edge(s, i, rng.choice(pool))
        for s, x in enumerate(mdp):
            if end(x) and rng.random() < .4:
                edge(s, 0, rng.randrange(len(mdp)))
        spec['mdp'] = mdp
        unique = give_ids(rng, mdp)
        longest = deepest(mdp)
        cyclic = longest is None
        depth = rng.choice([1, 2, 3, 5, 8, 12]) if cyclic or rng.random() < .3 else rng.choice([1000, max(1, max(longest)), 40])
        disc = rng.choice([1., 1., .9, .5])
        rollouts = rng.choice([0, 1, 1, 2, 3, 5, 10, 25, 60, 200, 200, 1000 if not cyclic else 60])
        time = rng.choice([10 ** 8, 10 ** 8, 10 ** 8, 0, 1, 20, 500])
        simulate = int(rng.random() < .5)
        spec['params'] = [int(unique and rng.random() < .4), simulate, time, rollouts, depth, rng.choice([.25, .25, .01, .5, 1.]), disc,
                          int(rng.random() < .35)]
        starts = [s for s, x in enumerate(mdp) if not end(x)]
        first = 0 if rng.random() < .6 else rng.choice(starts)
        ops = []
        if not simulate or rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                ops += [[7, first], [4, 0]] if rng.random() < .5 else [[7, first]]
                for _ in range(rng.choice([1, 2, 3, 5])):
                    ops += [[6, 0], [4, 0]]
                if rng.random() < .5:
                    first = rng.choice(starts)
        else:
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                if ops and rng.random() < .3:
                    ops += [[1, 0], [4, 0]]
                s = first if rng.random() < .6 else rng.choice(starts)
                ops += [[8, s], [4, 0]]
                if rng.random() < .5:
                    for _ in range(rng.choice([1, 2, 3])):
                        ops += [[3, rng.randrange(len(mdp))], [4, 0]]
        spec['ops'] = ops
        spec['cfg']['max_points'] = 20000000

    def valid(self, spec):
        m, p = spec['mdp'], spec['params']
        if not p[1] and any(o[0] in (8, 3) for o in spec['ops']):
            return False
        if not all(x['a'] for x in m if not end(x)):
            return False
        if any(o[0] in (8, 7) and end(m[o[1]]) for o in spec['ops']):
            return False
        if spec['ops'] and spec['ops'][0][0] not in (8, 7):
            return False
        if p[0] and len({tuple(x['f']) for x in m}) < len(m):
            return False
        return deepest(m) is not None or p[4] <= 12

    def check(self, spec, d, v):
        mdp, cfg = spec['mdp'], spec['cfg']
        hashed, simulate, time, budget, depth, expl, disc, garbage = spec['params']
        threads = min(cfg['workers'], spec['cap']) if spec['par'] else 1
        longest = deepest(mdp)
        self.best = optimum(mdp, disc) if longest is not None else None
        full = longest is not None and depth > max(longest)
        chain = all(len(x['a']) == 1 and x['a'][0][1][0][2] == s + 1 for s, x in enumerate(mdp) if not end(x)) and \
            len({tuple(x['f']) for x in mdp}) == len(mdp)
        fresh = lambda: {'prefix': [], 'dropped': False, 'failed': False, 'new': True, 'pruned': None, 'at': None, 'done': False, 'moved': False, 'root': None, 'cut': False, 'way': None}
        st = fresh()
        for op, r in zip(spec['ops'], d['ops']):
            if v:
                return
            k = op[0]
            if k in (1, 7):
                st = fresh()
            elif k in (6, 8) and not r.get('over'):
                st['new'] = False
                st['moved'] = st['moved'] or st['root'] not in (None, r['at'])
                st['root'] = r['at']
                st['at'], st['done'] = r['at'], False
                st['pruned'] = r['pruned']
                # what has been pruned once can still be known by the value of the worst return
                st['cut'] = st['cut'] or bool(r['pruned'])
                slack = 1.5e6 + threads * (cfg['call_ns'] + 1e5) * (10 + len(st['prefix']))
                if r['rollouts'] > budget + threads - 1:
                    v.append(('more rollouts than the budget', f'{r["rollouts"]}, budget {budget}, {threads} threads'))
                if r['err'] is not None:
                    st['failed'] = True
                    st['way'] = None
                    continue
                if not d['jumps'] and r['ns'] > time * 1e6 + slack:
                    v.append(('solving goes on after its time budget', f'{r["ns"] / 1e6} ms, budget {time} ms'))
                hurried = d['jumps'] or r['ns'] >= (time - 1) * 1e6
                st['done'] = not hurried and r['rollouts'] < budget and not r['pruned'] and not st['failed'] and full
                st['some'] = r['rollouts'] > 0
                if chain and not hurried and r['rollouts'] < budget and not st['failed'] and full:
                    # the last width goes through to the end, nothing is pruned on its way
                    if r['pruned']:
                        v.append(('the only way is pruned', f'{r["at"]}: {r["pruned"]} states'))
                    st['way'] = r['at']
                else:
                    st['way'] = None
                if k == 6:
                    a = r['answer'][2]
                    if bool(r['answer'][0]) != (a is not None):
                        v.append(('the policy differs from its single answers', f'{r["at"]}: {r["answer"]}'))
                    if a is None and r['rollouts'] > 0:
                        v.append(('nothing is known of the start after a rollout', f'{r["at"]}'))
                    if a is not None:
                        if not any(i == a for i, _ in mdp[r['at']]['a']):
                            v.append(('an action is not applicable', f'{a} in {r["at"]}'))
                        st['prefix'] = st['prefix'] + [a]
                        st['dropped'] = st['dropped'] or bool(garbage)
                        if st['done']:
                            b, val = self.best[r['at']], num(r['answer'][1])
                            (o,) = [o for i, o in mdp[r['at']]['a'] if i == a]
                            q = -o[0][1] + disc * self.best[o[0][2]]
                            if abs(val - b) > 1e-6 * max(1, abs(b)) or abs(q - b) > 1e-6 * max(1, abs(b)):
                                v.append(('the answer of a complete search is not optimal', f'{r["at"]}: {a}, value {val}, worth {q}, optimum {b}'))
                    st['at'] = None
            elif k == 3:
                if r[1] is not None:
                    st['prefix'] = st['prefix'] + [r[1]]
                    st['dropped'] = st['dropped'] or bool(garbage)
                    st['at'] = None
                if bool(r[0]) != (r[1] is not None):
                    v.append(('the policy differs from its single answers', f'{op[1]}: {r}'))
                if r[1] is not None and not any(i == r[1] for i, _ in mdp[op[1]]['a']):
                    v.append(('an action is not applicable', f'{r[1]} in {op[1]}'))
            elif k == 4:
                self.state(spec, r, st, longest, full, v)

    def state(self, spec, r, st, longest, full, v):
        mdp = spec['mdp']
        hashed, simulate, time, budget, depth, expl, disc, garbage = spec['params']
        if r['prefix'] != ([] if simulate else st['prefix']):
            v.append(('the actions taken are not those remembered', f'{r["prefix"]}, taken {st["prefix"]}'))
        if st['new'] and (r['policy'] or r['explored'][0]):
            v.append(('a cleared solver remembers', f'{r["policy"]}'))
        vals = [[x[0], num(x[1])] for x in r['values']]
        known = sum(x[1] is not None for x in vals)
        if r['explored'][0] != known or r['explored'][1] != known:
            v.append(('the number of explored states is wrong', f'{r["explored"]}, {known} states are known'))
        if r['pruned'][0] != r['pruned'][1] or r['pruned'][0] > known:
            v.append(('more states are pruned than explored', f'{r["pruned"]} of {known}'))
        bounds = returns(mdp, disc, False) if longest is not None else None
        n = len(mdp)
        # a feature which no two states share is new in every state
        alone = any(len({x['f'][i] for x in mdp}) == n for i in range(len(mdp[0]['f'])))
        if alone and r['pruned'][0]:
            v.append(('a state with a new feature is pruned', f'{r["pruned"]}'))
            return
        sure = not st['failed'] and longest is not None and (full or single_parents(mdp) and not st['moved']) and (alone or st['done'])
        for s, (ok, val) in enumerate(vals):
            p = r['policy'].get(str(s))
            if (p is not None) != bool(ok) or (p and num(p[1]) != val):
                v.append(('the policy differs from its single answers', f'{s}: {p}, answer {(ok, val)}'))
                return
            if p is None:
                continue
            outs = [o for i, o in mdp[s]['a'] if i == p[0]]
            if not outs or end(mdp[s]):
                v.append(('an action is not applicable', f'{p[0]} in {s}'))
                return
            if not sure:
                continue
            (_, c, t), = outs[0]
            if vals[t][1] is None:
                if not st['dropped']:
                    v.append(('the outcome of an answer is not known', f'{s}: {p}, {t}'))
                continue
            want = -c + disc * vals[t][1]
            if abs(val - want) > 1e-6 * max(1, abs(want)) and not st['dropped']:
                v.append(('a value is not what the answer is worth', f'{s}: {p}, outcome {t} with {vals[t][1]}, reward {-c}'))
                return
            if not st['cut'] and not bounds[0][s] - 1e-6 <= val <= bounds[1][s] + 1e-6:
                v.append(('a value is no return of the domain', f'{s}: {val}, returns {bounds[0][s]} to {bounds[1][s]}'))
                return
        w = st['way']
        if w is not None and st['at'] == w and abs((vals[w][1] if vals[w][0] else math.inf) - self.best[w]) > 1e-6 * max(1, abs(self.best[w])):
            v.append(('the only way is not worth what it yields', f'{w}: {vals[w]}, {self.best[w]}'))
        if st['at'] is not None and st.get('some') and not st['failed'] and not vals[st['at']][0]:
            v.append(('nothing is known of the start after a rollout', f'{st["at"]}'))
        if st['at'] is not None and st['done']:
            b, val = self.best[st['at']], vals[st['at']][1]
            if val is None or abs(val - b) > 1e-6 * max(1, abs(b)):
                v.append(('the value of a complete search is not optimal', f'{st["at"]}: {val}, optimum {b}'))
                return
            s, got, g, seen = st['at'], 0., 1., 0
            while not end(mdp[s]) and seen <= len(mdp):
                p = r['policy'].get(str(s))
                if p is None:
                    v.append(('the answers of a complete search do not lead to an end', f'from {st["at"]}: {s}'))
                    return
                (o,) = [o for i, o in mdp[s]['a'] if i == p[0]]
                got, g, s, seen = got - g * o[0][1], g * disc, o[0][2], seen + 1
            if abs(got - b) > 1e-6 * max(1, abs(b)):
                v.append(('the answers of a complete search are not optimal', f'{st["at"]}: {got}, optimum {b}'))


CHECKS = {'C31': RIW()}
