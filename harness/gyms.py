"""Wrapped environments: simulated Gym environments behind the repository's wrappers, domains behind AsGymEnv, spaces, discrete
actions and state features, in histories where environments are stepped, reset, copied, restored and fail."""
import contextlib
import dataclasses
import enum
import io
import itertools
import json
import random
import warnings
from importlib import import_module as im

from harness.common import Harness, Outcome, drop_each
from harness.local import Base, Boom, hsh

HUB = 'skdecide.hub.domain.gym'


# ---------------------------------------------------------------------------------------------- spaces, by description
def gen_space(rng, depth=1, action=False):
    kind = rng.choice(['box', 'box', 'disc', 'md', 'mb'] + ['tuple', 'dict'] * (depth > 0))
    if kind == 'box':
        shape = rng.choice([[1], [2], [2], [3], [2, 2], [1, 2]] + [[]] * (not action))
        n = 1
        for d in shape:
            n *= d
        if rng.random() < .15:
            return ['box', shape, ['-inf'] * n, ['inf'] * n, 'float32']
        low = [rng.choice([-4, -2, -1, 0, 1]) for _ in range(n)]
        return ['box', shape, low, [x + rng.choice([1, 2, 4]) for x in low], rng.choice(['float32', 'float32', 'float64', 'int64'])]
    if kind == 'disc':
        return ['disc', rng.choice([1, 2, 3, 5, 8, 9])]
    if kind == 'md':
        return ['md', [rng.choice([1, 2, 3, 4, 5]) for _ in range(rng.choice([1, 2, 2, 3]))]]
    if kind == 'mb':
        return ['mb', rng.choice([1, 2, 3])]
    k = rng.choice([1, 2, 2, 3])
    if kind == 'tuple':
        return ['tuple', [gen_space(rng, depth - 1, action) for _ in range(k)]]
    return ['dict', {n: gen_space(rng, depth - 1, action) for n in rng.sample(['b', 'a', 'z', 'm'], k)}]


def build(s):
    import gym
    import numpy as np
    k = s[0]
    if k == 'box':
        low, high = (np.array([float(x) for x in v]).reshape(s[1]).astype(s[4]) for v in (s[2], s[3]))
        return gym.spaces.Box(low=low, high=high, dtype=np.dtype(s[4]).type)
    if k == 'disc':
        return gym.spaces.Discrete(s[1])
    if k == 'md':
        return gym.spaces.MultiDiscrete(s[1])
    if k == 'mb':
        return gym.spaces.MultiBinary(s[1])
    if k == 'tuple':
        return gym.spaces.Tuple([build(x) for x in s[1]])
    return gym.spaces.Dict({n: build(x) for n, x in s[1].items()})


def element(s, h, flip=False):
    """an element of the space drawn from the number h; flip: the same one, written differently"""
    import numpy as np
    k = s[0]
    if k == 'box':
        vals = []
        for i, (l, u) in enumerate(zip(s[2], s[3])):
            x = hsh(h, i)
            if l == '-inf':
                v = (x % 65 - 32) / 4
            elif s[4] == 'int64':
                v = l + x % (u - l + 1)
            else:
                v = l + (x % 9) * (u - l) / 8
            vals.append(-0. if v == 0 and x % 3 == 0 and s[4] != 'int64' else v)
        return np.array(vals).reshape(s[1]).astype(s[4])
    if k == 'disc':
        return hsh(h) % s[1]
    if k == 'md':
        return np.array([hsh(h, i) % n for i, n in enumerate(s[1])], dtype=np.int64)
    if k == 'mb':
        return np.array([hsh(h, i) % 2 for i in range(s[1])], dtype=np.int8)
    if k == 'tuple':
        return tuple(element(x, (h, i), flip) for i, x in enumerate(s[1]))
    names = sorted(s[1])
    return {n: element(s[1][n], (h, n), flip) for n in (reversed(names) if flip else names)}


def plain(s, e):
    """an element as a hashable value"""
    import numpy as np
    k = s[0]
    if k == 'box':
        return tuple(float(x) for x in np.asarray(e).reshape(-1))
    if k == 'disc':
        return int(e)
    if k in ('md', 'mb'):
        return tuple(int(x) for x in e)
    if k == 'tuple':
        return tuple(plain(x, y) for x, y in zip(s[1], e))
    return tuple((n, plain(x, e[n])) for n, x in sorted(s[1].items()))


def order(s):
    """names in the order a Dict space keeps them"""
    return sorted(s[1])


def cells(s, e):
    """all numbers, in the order of the space; True for those of boxes"""
    import numpy as np
    k = s[0]
    if k == 'box':
        return [(float(x), True) for x in np.asarray(e).reshape(-1)]
    if k == 'disc':
        return [(int(e), False)]
    if k in ('md', 'mb'):
        return [(int(x), False) for x in e]
    if k == 'tuple':
        return [c for x, y in zip(s[1], e) for c in cells(x, y)]
    return [c for n in order(s) for c in cells(s[1][n], e[n])]


def grid(s, factor):
    """the discrete actions of a space, as plain values; None for those which are drawn"""
    k = s[0]
    if k == 'box':
        if '-inf' in s[2]:
            return None
        axes = [[l + (u - l) * i / (factor - 1) if factor > 1 else l for i in range(factor)] for l, u in zip(s[2], s[3])]
        if s[4] == 'int64':
            return None
        return list(itertools.product(*axes))
    if k == 'disc':
        return list(range(s[1]))
    if k == 'md':
        return list(itertools.product(*[range(n) for n in s[1]]))
    if k == 'mb':
        return list(itertools.product([0, 1], repeat=s[1]))
    parts = [grid(x, factor) for x in (s[1] if k == 'tuple' else [s[1][n] for n in sorted(s[1])])]
    if None in parts:
        return None
    if k == 'tuple':
        return list(itertools.product(*parts))
    return [tuple(zip(sorted(s[1]), c)) for c in itertools.product(*parts)]


def count(s, factor):
    k = s[0]
    if k == 'box':
        return factor ** len(s[2])
    if k == 'disc':
        return s[1]
    r = 1
    for x in (s[1] if k == 'md' else [2] * s[1] if k == 'mb' else [count(x, factor) for x in (s[1] if k == 'tuple' else s[1].values())]):
        r *= x
    return r


# ---------------------------------------------------------------------------------------------- the simulated environment
class World:
    """what the environment does, from its hidden state (place, time)"""
    def __init__(self, spec):
        self.s = spec

    def start(self, resets):
        s = self.s
        return (hsh(s['salt'], 'start', 0 if s['calm'] else resets) % s['places'], 0)

    def move(self, x, a):
        return (hsh(self.s['salt'], 'move', x, a) % self.s['places'], x[1] + 1 if self.s['timed'] else 0)

    def seen(self, x):
        return element(self.s['obs'], (self.s['salt'], 'seen', x), bool(hsh(x) % 2))

    def reward(self, x, a):
        return float(hsh(self.s['salt'], 'reward', x, a) % 9 - 4) / 2

    def done(self, x):
        return hsh(self.s['salt'], 'done', x) % 7 == 0

    def info(self, x, a):
        return {'n': hsh(self.s['salt'], 'info', x, a) % 10}


def environment(run, world):
    import gym

    class Env(gym.Env):
        """its hidden state is changed in place"""
        def __init__(self):
            self.action_space, self.observation_space = build(world.s['act']), build(world.s['obs'])
            self.x, self.resets, self.shut = None, 0, 0
            self.trail = []

        def reset(self):
            run.event('env resets')
            self.x = world.start(self.resets)
            self.resets += 1
            self.trail = []
            return world.seen(self.x)

        def step(self, action):
            a = plain(world.s['act'], action)
            if not self.action_space.contains(action):
                run.fail('not an action', f'{action!r} is given to an environment with actions {self.action_space}')
            x = self.x
            if world.s['late']:         # fails with its state half changed
                self.x = world.move(x, a)
                self.trail.append(a)
                run.event('env step', x, a)
            else:
                run.event('env step', x, a)
                self.x = world.move(x, a)
                self.trail.append(a)
            return world.seen(self.x), world.reward(x, a), world.done(self.x), world.info(x, a)

        def render(self, mode='human'):
            run.event('env renders', mode)
            return f'{mode} {self.x}'

        def close(self):
            self.shut += 1
    return Env()


def accessors(run, how):
    import numpy as np

    def put(env, state):
        run.event('set state')
        if how == 'dict':
            env.x = (state['p'], state['t'])
        else:
            env.x = tuple(int(v) for v in state)

    def get(env):
        run.event('get state')
        return {'tuple': tuple, 'list': list, 'array': lambda x: np.array(x), 'dict': lambda x: {'p': x[0], 't': x[1]}}[how](env.x)
    return (None, None) if how is None else (put, get)


# ---------------------------------------------------------------------------------------------- features
class Bee1:
    """a number per level: how many records a value beats, away from where it started, then from the last record it beats"""
    def __init__(self, ref, levels):
        self.ref, self.levels = ref, levels
        self.side = {1: [[0], []], -1: [[0], []]}
        self.refs = {}

    def __call__(self, x):
        sign = 1 if x > self.ref else -1
        node, ref, out = self.side[sign], self.ref, []
        while len(out) < self.levels:
            d = sign * (x - ref)
            i = sum(r < d for r in node[0])
            out.append(sign * i)
            if i == len(node[0]):
                node[0].append(d)
                node[1].append([[0], []])
                return out + [0] * (self.levels - len(out))
            if i:
                ref, node = ref + sign * node[0][i - 1], node[1][i - 1]
        return out


class Bee2:
    """intervals, in the order in which values beyond all of them came; each has its own for the next level"""
    def __init__(self):
        self.i = []

    def __call__(self, x, level):
        if not self.i:
            self.i.append((x, x, Bee2()))
        elif x < min(l for l, _, _ in self.i):
            self.i.append((x, min(l for l, _, _ in self.i), Bee2()))
        elif x > max(u for _, u, _ in self.i):
            self.i.append((max(u for _, u, _ in self.i), x, Bee2()))
        else:
            k = next(k for k, (l, u, _) in enumerate(self.i) if l <= x <= u)
            return [k] + (self.i[k][2](x, level - 1) if level else [])
        return [len(self.i) - 1] + [-1] * level


class Features:
    def __init__(self, space, levels):
        self.space, self.levels = space, levels
        self.forget()

    def forget(self):
        self.one = self.two = None

    def bee1(self, e):
        cs = cells(self.space, e)
        if self.one is None:
            self.one = [Bee1(x, self.levels) if box else None for x, box in cs]
        return [v for (x, box), f in zip(cs, self.one) for v in (f(x) if box else [x])]

    def bee2(self, e):
        cs = cells(self.space, e)
        if self.two is None:
            self.two = [Bee2() if box else None for _, box in cs]
            for (x, box), f in zip(cs, self.two):
                if box:
                    f(x, 0)
        return [v for (x, box), f in zip(cs, self.two) for v in (f(x, self.levels - 1) if box else [x])]


class Colour(enum.Enum):
    red = 'r'
    green = 'g'
    blue = 'b'


def with_bits(*ss):
    return any(x[0] == 'box' for s in ss for x in leaves(s))


def leaves(s):
    return [s] if s[0] not in ('tuple', 'dict') else [l for x in (s[1] if s[0] == 'tuple' else s[1].values()) for l in leaves(x)]


class GymRun(Base):
    def go(self):
        import gym.utils.seeding as seeding
        import numpy as np
        sp = self.spec
        random.seed(sp['seed'])
        np.random.seed(sp['seed'])
        self.rng = random.Random(sp['seed'])
        real = seeding.np_random

        def drawn(seed=None):
            return real(self.rng.randrange(1 << 30) if seed is None else seed)
        seeding.np_random = drawn
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                {'plain': self.boxed, 'hash': self.boxed, 'init': self.restarted, 'det': self.planned, 'cost': self.planned, 'plan': self.planned,
                 'as': self.unboxed, 'own': self.own, 'space': self.spaces}[sp['kind']]()
        except Boom:
            self.fail('raises', 'an injected failure came up where none was armed')
        except Exception as e:
            self.crash(sp['kind'], e)
        finally:
            seeding.np_random = real
            self.arm = None

    # -- help
    def armed(self, op, what):
        """what() with the failure op asks for; None if it failed"""
        self.arm = op.get('boom')
        try:
            return what()
        except Boom:
            self.faults['failing environment'] += 1
            self.event('failed')
            return None
        finally:
            self.arm = None

    def look(self, obs, x, what):
        """an observation is that of the hidden state x"""
        want = plain(self.spec['obs'], self.world.seen(x))
        got = plain(self.spec['obs'], getattr(obs, '_state', obs))
        self.event('seen', got)
        self.stats['observations'] += 1
        if got != want:
            self.fail('wrong observation', f'{what}: {obs}, the environment shows {want}')
        return not self.v

    def told(self, out, x, a, y, what):
        """an outcome is that of a in x, which leads to y"""
        value = getattr(out, 'value')
        if not self.look(out.observation, y, what):
            return
        w = self.world
        if value.reward != w.reward(x, a) or bool(out.termination) != w.done(y):
            self.fail('wrong outcome', f'{what}: reward {value.reward} termination {out.termination}, they are {w.reward(x, a)} and {w.done(y)}')
        if self.spec['kind'] in ('plain', 'hash', 'init') and out.info != w.info(x, a):
            self.fail('wrong outcome', f'{what}: information {out.info}, it is {w.info(x, a)}')

    def action(self, op):
        e = element(self.spec['act'], op['a'])
        return e, plain(self.spec['act'], e)

    # -- environments as domains
    def boxed(self):
        sp = self.spec
        m = im(HUB)
        self.world = World(sp)
        env = environment(self, self.world)
        d = (m.GymDomain if sp['kind'] == 'plain' else im(HUB + '.gym').GymDomainHashable)(env)
        if d.unwrapped() is not env:
            return self.fail('not the environment', str(d.unwrapped()))
        self.ball(d, env, 0)

    def ball(self, d, env, resets):
        """resets and steps of a domain, or environment, around env"""
        x = None
        for k, op in enumerate(self.spec['ops']):
            self.n = k
            if op['do'] == 'render' and x is not None:
                got = d.render(mode=op['mode']) if op['mode'] else d.render()
                if got != f'{op["mode"] or "human"} {x}':
                    self.fail('wrong picture', f'{got} in {x}')
            elif op['do'] == 'reset' or x is None:
                obs = self.armed(op, d.reset)
                if obs is None:
                    x = None
                    continue
                x = self.world.start(env.resets - 1)
                self.look(obs, x, 'reset')
            else:
                e, a = self.action(op)
                out = self.armed(op, lambda: d.step(e))
                if out is None:
                    x = None        # what a failed step leaves is the environment's business
                    continue
                y = self.world.move(x, a)
                if isinstance(out, tuple) and len(out) == 4:
                    obs, reward, done, info = out
                    if self.look(obs, y, 'step') and (reward, bool(done), info) != (self.world.reward(x, a), self.world.done(y), self.world.info(x, a)):
                        self.fail('wrong outcome', f'{out[1:]} of {a} in {x}')
                else:
                    self.told(out, x, a, y, 'step')
                x = None if self.world.done(y) else y
            if self.v:
                return

    # -- environments which restart at the same place
    def restarted(self):
        sp = self.spec
        self.world = World(sp)
        cls = im(HUB).DeterministicInitializedGymDomain
        ds = []
        for _ in range(2):
            env = environment(self, self.world)
            env.resets = hsh(sp['salt'], len(ds)) % 3
            ds.append([cls(env, *accessors(self, sp['state'])), None, None, None])      # domain, first place, place now, first state
            ds[-1].append(env)
        for k, op in enumerate(sp['ops']):
            self.n = k
            it = ds[op['on']]
            d, first, x, state, env = it
            if op['do'] == 'adopt' and ds[1 - op['on']][3] is not None:
                other = ds[1 - op['on']]
                before = sum(self.faults.values())
                self.armed(op, lambda: d.set_memory(other[3]))
                if sum(self.faults.values()) == before:
                    it[1] = it[2] = other[1]
                    it[3] = other[3]
                else:
                    return      # half of a memory is set
            elif op['do'] == 'render' and x is not None:
                if d.render(mode='m') != f'm {x}':
                    self.fail('wrong picture', f'in {x}')
            elif op['do'] in ('reset', 'adopt', 'render') or x is None:
                obs = self.armed(op, d.reset)
                if obs is None:
                    it[2] = None
                    continue
                if first is None:
                    it[1] = self.world.start(env.resets - 1)
                it[2] = it[1]
                it[3] = obs
                self.look(obs, it[1], 'reset')
                self.stats['restarts'] += first is not None
            else:
                e, a = self.action(op)
                out = self.armed(op, lambda: d.step(e))
                if out is None:
                    it[2] = None
                    continue
                y = self.world.move(x, a)
                self.told(out, x, a, y, 'step')
                it[2] = None if self.world.done(y) else y
            if self.v:
                return

    # -- environments as planning domains
    def planned(self):
        sp = self.spec
        m = im(HUB)
        self.world = w = World(sp)
        env = environment(self, w)
        put, get = accessors(self, sp['state'])
        features = None
        if sp['kind'] == 'plan':
            class Mine(m.GymPlanningDomain, m.GymWidthDomain, m.GymDiscreteActionDomain):
                pass
            d = Mine.__new__(Mine)
            m.GymPlanningDomain.__init__(d, env, put, get, sp['term'], sp['depth'])
            m.GymDiscreteActionDomain.__init__(d, sp['factor'], sp['branch'])
            m.GymWidthDomain.__init__(d, sp['levels'])
            features = Features(sp['obs'], sp['levels'])
            self.actions(d)
        else:
            d = {'det': m.DeterministicGymDomain, 'cost': m.CostDeterministicGymDomain}[sp['kind']](env, put, get)
        if self.v:
            return
        known, now, at_start, goals = [], None, False, None
        bits = {}
        for k, op in enumerate(sp['ops']):
            self.n = k
            if not known:
                s = self.armed(op, d.get_initial_state)
                if s is None:
                    continue
                x = w.start(0)
                known.append((s, x, 0, False))
                self.look(s, x, 'initial state')
            elif op['do'] == 'reset':
                s = self.armed(op, d.reset)
                if s is not None:
                    now = (s, w.start(0), 0)
                    self.look(s, now[1], 'reset')
            elif op['do'] == 'step' and now is not None:
                e, a = self.action(op)
                at_start = self.expand(now[0], features, at_start)
                out = self.armed(op, lambda: d.step(e))
                if out is not None:
                    y = w.move(now[1], a)
                    self.told(out, now[1], a, y, 'step')
                    now = (out.observation, y, now[2] + 1) if not w.done(y) else None
            elif op['do'] == 'feature' and features is not None:
                s, x, _, _ = known[op['from'] % len(known)]
                self.feature(d, s, x, op['what'], features, bits)
            else:
                s, x, depth, _ = known[op.get('from', 0) % len(known)]
                e, a = self.action(op)
                at_start = self.expand(s, features, at_start)
                t = self.armed(op, lambda: d.get_next_state(s, e))
                if t is None:
                    continue
                y = w.move(x, a)
                self.event('next', x, a, y)
                if not self.look(t, y, f'{a} in {x}'):
                    return
                v = d.get_transition_value(s, e, t)
                if v.reward != w.reward(x, a) or v.cost != -w.reward(x, a):
                    self.fail('wrong value', f'{v} of {a} in {x}, the reward is {w.reward(x, a)}')
                if bool(d.is_terminal(t)) != w.done(y):
                    self.fail('wrong end', f'{y} is terminal: {d.is_terminal(t)}')
                known.append((t, y, depth + 1, w.done(y)))
                self.stats['transitions'] += 1
                if sp['kind'] == 'plan':
                    for s, y, depth, done in known:
                        want = depth >= sp['depth'] or sp['term'] and done
                        if bool(d.is_goal(s)) != want:
                            self.fail('wrong goal', f'{y} after {depth} steps is a goal: {d.is_goal(s)}')
            if not self.v:
                for s, x, _, _ in known:
                    if plain(sp['obs'], s._state) != plain(sp['obs'], w.seen(x)):
                        self.fail('state changed', f'{s} was {w.seen(x)}')
                        break
                self.alike([k[0] for k in known])
            if self.v:
                return

    def expand(self, s, features, at_start):
        """features are forgotten when a search starts again"""
        if features is None:
            return False
        if plain(self.spec['obs'], s._state) == plain(self.spec['obs'], self.world.seen(self.world.start(0))):
            if not at_start:
                features.forget()
            return True
        return False

    def alike(self, states):
        """states are equal, with one hash, when they show the same"""
        for s, t in itertools.combinations(states[-4:], 2):
            same = plain(self.spec['obs'], s._state) == plain(self.spec['obs'], t._state)
            if (s == t) != same or same and hash(s) != hash(t):
                return self.fail('equality', f'{s} == {t}: {s == t}, hashes {hash(s)} {hash(t)}')

    def feature(self, d, s, x, what, features, bits):
        e = self.world.seen(x)
        space = self.spec['obs']
        if what == 'bits':
            got = list(d.binary_features(s))
            if any(type(b) is not bool for b in got):
                return self.fail('not bits', f'{got} of {e}')
            n = d.nb_of_binary_features()
            if len(got) != n:
                return self.fail('wrong number of bits', f'{len(got)} for {e}, {n} are announced')
            self.event('bits', got)
            if float('inf') not in [abs(c) for c, _ in cells(space, e)]:
                key = tuple(cells(space, e))
                if bits.setdefault(tuple(got), key) != key:
                    return self.fail('not binary features', f'{key} and {bits[tuple(got)]} have the same bits')
        elif what == 'ellipses':
            cs = [c for c, _ in cells(space, e)]
            if features.one is None and features.two is None and self.spec['ell']:
                pass
            first, goal = self.world.seen(self.world.start(0)), element(space, ('goal', self.spec['salt']))
            d.init_elliptical_features(first, goal)
            got = d.elliptical_features(s)
            a, b = [c for c, _ in cells(space, first)], [c for c, _ in cells(space, goal)]
            pairs = list(itertools.combinations(range(len(cs)), 2))
            if len(got) != len(pairs):
                return self.fail('wrong number of features', f'{got} for {len(cs)} variables')
            at_goal = d.elliptical_features(goal)
            for (i, j), f, g in zip(pairs, got, at_goal):
                far = ((cs[i] - b[i]) ** 2 + (cs[j] - b[j]) ** 2) ** .5
                off = ((a[i] - b[i]) ** 2 + (a[j] - b[j]) ** 2) ** .5
                if g != 0 or far == 0 and f != 0 or far > off * 1.0001 and f <= 0:
                    return self.fail('wrong band', f'{f} at {far} from the goal, {off} at first; {g} at the goal')
        else:
            got = [int(v) for v in getattr(d, what + '_features')(s)]
            fresh = features.one is None and features.two is None
            if not fresh and (features.one if what == 'bee1' else features.two) is None:
                raise AssertionError
            want = getattr(features, what)(e)
            self.event(what, got)
            self.stats['features'] += 1
            if got != want:
                self.fail('wrong features', f'{what} of {e}: {got}, they are {want}')

    def actions(self, d):
        sp = self.spec
        got = list(d._applicable_actions.get_elements())
        total = count(sp['act'], sp['factor'])
        n = total if sp['branch'] is None else min(total, sp['branch'])
        if len(got) != n:
            return self.fail('wrong number of actions', f'{len(got)} of {sp["act"]}, there are {n}')
        space = build(sp['act'])
        for a in got:
            if not space.contains(a):
                return self.fail('not an action', f'{a!r} of {space}')
        have = [plain(sp['act'], a) for a in got]
        self.event('actions', have)
        want = grid(sp['act'], sp['factor'])
        self.stats['actions'] += len(have)

        def close(a, b):
            if isinstance(a, tuple):
                return len(a) == len(b) and all(map(close, a, b))
            return a == b if isinstance(a, str) else abs(a - b) < 1e-4
        if want is not None:
            if any(not any(close(a, b) for b in want) for a in have) or n == total and any(not any(close(a, b) for b in have) for a in want):
                return self.fail('wrong actions', f'{have} of {want}')
            if len(set(have)) != (len(set(want)) if n == total else n) and len(set(want)) == len(want):
                return self.fail('repeated actions', f'{have} of {want}')
        space = d._applicable_actions
        for a in got[:20]:
            if not space.contains(a):
                return self.fail('action not applicable', f'{a} is not in {got}')
        i = self.rng.randrange(len(got))
        if plain(sp['act'], list(space.from_unwrapped(list(space.to_unwrapped([got[i]]))))[0]) != have[i]:
            self.fail('index of an action', f'{have[i]} of {have}')

    # -- domains as environments
    def unboxed(self):
        m = im(HUB)
        self.world = World(self.spec)
        env = environment(self, self.world)
        e = m.AsGymEnv(m.GymDomain(env))
        if e.action_space is not env.action_space or e.observation_space is not env.observation_space:
            return self.fail('other spaces', f'{e.action_space} {e.observation_space}')
        self.ball(e, env, 0)

    def own(self):
        """a domain with its own spaces"""
        from skdecide import EnvironmentOutcome, Space, TransitionOutcome, TransitionValue
        from skdecide.builders.domain import (FullyObservable, Initializable, Environment, Markovian, Renderable, Rewards, Sequential, SingleAgent,
                                              UnrestrictedActions)
        from skdecide import Domain
        sp = self.spec
        aspace, acts = self.listed(sp['aspace'])
        ospace, obss = self.listed(sp['ospace'])
        run = self

        class D(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Initializable, Markovian, FullyObservable, Renderable, Rewards):
            def _state_reset(self):
                run.event('resets')
                self.x = hsh(sp['salt'], 'start') % len(obss)
                return obss[self.x]

            def _state_step(self, action):
                a = acts.index(action)
                run.event('steps', self.x, a)
                r, x = hsh(sp['salt'], 'r', self.x, a) % 5, hsh(sp['salt'], 'm', self.x, a) % len(obss)
                self.x = x
                return TransitionOutcome(state=obss[x], value=TransitionValue(reward=r), termination=x == len(obss) - 1, info=None if r % 2 else {'r': r})

            def _get_action_space_(self):
                return aspace

            def _get_observation_space_(self):
                return ospace
        d = D()
        e = im(HUB).AsGymEnv(d, unwrap_spaces=sp['unwrap'])

        def shown(i):
            return list(ospace.to_unwrapped([obss[i]]))[0] if sp['unwrap'] else obss[i]

        def check(o, i, what):
            want = shown(i)
            if type(o) is not type(want) or o != want:
                return self.fail('wrong observation', f'{what}: {o!r}, it is {want!r}')
            if not e.observation_space.contains(o):
                return self.fail('outside the space', f'{what}: {o!r} of {e.observation_space}')
            self.stats['observations'] += 1
        x = None
        for k, op in enumerate(sp['ops']):
            self.n = k
            if x is None or op['do'] == 'reset':
                o = self.armed(op, e.reset)
                if o is None:
                    x = None
                    continue
                x = hsh(sp['salt'], 'start') % len(obss)
                check(o, x, 'reset')
            else:
                a = hsh(op['a']) % len(acts)
                given = list(aspace.to_unwrapped([acts[a]]))[0] if sp['unwrap'] else acts[a]
                if not e.action_space.contains(given):
                    return self.fail('outside the space', f'action {given!r} of {e.action_space}')
                out = self.armed(op, lambda: e.step(given))
                if out is None:
                    x = None
                    continue
                o, r, done, info = out
                wr, x = hsh(sp['salt'], 'r', x, a) % 5, hsh(sp['salt'], 'm', x, a) % len(obss)
                check(o, x, 'step')
                if (r, bool(done)) != (wr, x == len(obss) - 1) or info != ({} if wr % 2 else {'r': wr}):
                    return self.fail('wrong outcome', f'{out}, the reward is {wr}')
                if done:
                    x = None
            if self.v:
                return

    def listed(self, how):
        """a space and all its elements"""
        import gym
        h = im('skdecide.hub.space.gym')
        if how == 'enum':
            return h.EnumSpace(Colour), list(Colour)
        if how == 'list':
            els = ['x', 'yy', (1, 2), 7]
            return h.ListSpace(els), els
        if how == 'data':
            return h.DataSpace(Place, {'x': gym.spaces.Discrete(3), 'y': gym.spaces.Discrete(2)}), [Place(i, j) for i in range(3) for j in range(2)]
        return h.DiscreteSpace(4), [0, 1, 2, 3]

    # -- spaces alone
    def spaces(self):
        import numpy as np
        h = im('skdecide.hub.space.gym')
        sp = self.spec
        for k, how in enumerate(sp['spaces']):
            self.n = k
            if isinstance(how, str):
                s, els = self.listed(how)
                if how in ('enum', 'list') and list(s.get_elements()) != els:
                    return self.fail('wrong elements', f'{s.get_elements()} of {els}')
                for e in els:
                    if not s.contains(e) or e not in s:
                        return self.fail('outside the space', f'{e!r} of {how}')
                if how != 'data' and s.contains('nowhere'):
                    return self.fail('inside the space', f'nowhere of {how}')
                some = [els[hsh(sp['salt'], how, i) % len(els)] for i in range(sp['samples'])]
                draw = [s.sample() for _ in range(sp['samples'])]
                for e in draw:
                    if not any(e == x for x in els) or not s.contains(e):
                        return self.fail('outside the space', f'a sample: {e!r} of {how}')
                for l in (some, [els[[e == x for x in els].index(True)] for e in draw]):
                    if list(s.from_unwrapped(list(s.to_unwrapped(l)))) != l or not all(s.unwrapped().contains(u) for u in s.to_unwrapped(l)):
                        return self.fail('unwrapping', f'{l} of {how}: {s.to_unwrapped(l)}')
                    if how != 'list':
                        back = list(s.from_jsonable(json.loads(json.dumps(s.to_jsonable(l)))))
                        if back != l:
                            return self.fail('to json and back', f'{l} of {how}: {back}')
            else:
                s = h.GymSpace(build(how))
                els = [element(how, (sp['salt'], i)) for i in range(sp['samples'])] + [s.sample() for _ in range(2)]
                if not all(s.contains(e) and e in s for e in els):
                    return self.fail('outside the space', f'{els} of {how}')
                back = list(s.from_jsonable(json.loads(json.dumps(s.to_jsonable(els)))))
                if [plain(how, e) for e in back] != [plain(how, e) for e in els]:
                    return self.fail('to json and back', f'{els} of {how}: {back}')
            self.event('space', how)
            self.stats['spaces'] += 1


@dataclasses.dataclass(frozen=True)
class Place:
    x: int
    y: int


class Gyms(Harness):
    runs = {'quick': 20000, 'thorough': 400000}
    real = ['wrappers of Gym environments as environments, restartable, deterministic, planning, width and discrete action domains; state proxies; '
            'domains wrapped as Gym environments; wrapped, enumeration, list and data class spaces; Gym itself (spaces)']
    stub = ['environments (simulated worlds with hidden state, changed in place)', 'entropy of Gym spaces (seeded)']

    def gen(self, rng, tier):
        kind = rng.choice(['plain', 'hash', 'init', 'init', 'det', 'det', 'cost', 'plan', 'plan', 'plan', 'as', 'own', 'space'])
        sp = {'kind': kind, 'seed': rng.randrange(1 << 30), 'salt': rng.randrange(1 << 30), 'places': rng.choice([2, 3, 5, 40]),
              'timed': rng.random() < .5, 'late': rng.random() < .5, 'calm': kind in ('det', 'cost', 'plan'),
              'obs': gen_space(rng), 'act': gen_space(rng, 1, True), 'state': rng.choice([None, None, 'tuple', 'list', 'array', 'dict'])}
        if kind == 'space':
            sp['spaces'] = [rng.choice(['enum', 'list', 'data', 'plain', gen_space(rng)]) for _ in range(rng.choice([1, 2, 3]))]
            sp['samples'] = rng.choice([0, 1, 2, 4])
            sp['ops'] = []
            return sp
        if kind == 'own':
            sp['aspace'], sp['ospace'] = (rng.choice(['enum', 'list', 'data', 'plain']) for _ in range(2))
            sp['unwrap'] = rng.random() < .7
        if kind == 'plan':
            sp.update(term=rng.random() < .5, depth=rng.choice([1, 2, 3, 5]), factor=rng.choice([1, 2, 2, 3, 4]), branch=rng.choice([None, None, 1, 2, 5]),
                      levels=rng.choice([1, 1, 2, 3, 4]), ell=True, what=rng.choice(['bee1', 'bee2', 'bits', 'ellipses']))
            while count(sp['act'], sp['factor']) > 300:
                sp['act'] = gen_space(rng, 1, True)
        ops = []
        for _ in range(rng.choice([1, 3, 6, 10, 20])):
            op = {'do': rng.choice({'plain': ['step'] * 6 + ['reset', 'render'], 'hash': ['step'] * 6 + ['reset'], 'as': ['step'] * 6 + ['reset', 'render'],
                                    'init': ['step'] * 6 + ['reset', 'reset', 'adopt', 'render'], 'own': ['step'] * 4 + ['reset'],
                                    'plan': ['next'] * 5 + ['feature'] * 5 + ['reset', 'step', 'step']}.get(kind, ['next'] * 5 + ['reset', 'step', 'step'])),
                  'a': rng.randrange(1 << 20) if rng.random() < .5 else rng.randrange(3)}
            if op['do'] == 'render':
                op['mode'] = rng.choice([None, 'rgb']) if kind != 'as' else 'rgb'
            if kind == 'init':
                op['on'] = rng.choice([0, 0, 0, 1])
            if op['do'] in ('next', 'feature'):
                op['from'] = rng.choice([0, 0, rng.randrange(100)])
            if op['do'] == 'feature':
                op['what'] = sp['what']
            if op['do'] != 'feature' and op['do'] != 'render' and rng.random() < .08:
                op['boom'] = rng.choice([0, 0, 1, 2])
            ops.append(op)
        sp['ops'] = ops
        return sp

    def execute(self, spec, record=False):
        r = GymRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, sum(r.stats.values()) > 0, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        for k, op in enumerate(spec['ops']):
            if 'boom' in op:
                yield {**spec, 'ops': spec['ops'][:k] + [{x: v for x, v in op.items() if x != 'boom'}] + spec['ops'][k + 1:]}
        for f, v in (('timed', False), ('late', False), ('branch', None)):
            if spec.get(f) not in (v, None):
                yield {**spec, f: v}
        for f in ('obs', 'act'):
            if spec[f][0] in ('tuple', 'dict'):
                for x in (spec[f][1] if spec[f][0] == 'tuple' else spec[f][1].values()):
                    yield {**spec, f: x}


CHECKS = {'C38': Gyms()}
