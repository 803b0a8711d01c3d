"""Values, shared-memory proxy and domain used by the parallel-domain simulations.

Everything here is deterministic and depends on (slot-local call count, method, arguments) only, so the same
class run in-process is the reference model for what the parallel machinery must return.
"""
import zlib


class Tok:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Tok and o.v == self.v

    def __repr__(self):
        return f'Tok({self.v})'


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return type(o) is Pair and (o.a, o.b) == (self.a, self.b)

    def __repr__(self):
        return f'Pair({self.a},{self.b})'


class Tri:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return type(o) is Tri and (o.a, o.b, o.c) == (self.a, self.b, self.c)

    def __repr__(self):
        return f'Tri({self.a},{self.b},{self.c})'


class Vec:
    def __init__(self, xs):
        self.xs = list(xs)

    def __eq__(self, o):
        return type(o) is Vec and o.xs == self.xs

    def __repr__(self):
        return f'Vec({self.xs})'


class Unsendable:
    """Cannot be pickled and has no shared-memory register."""
    def __init__(self, v=0):
        self.v = v

    def __reduce__(self):
        raise TypeError('cannot pickle Unsendable')

    def __eq__(self, o):
        return type(o) is Unsendable

    def __repr__(self):
        return 'Unsendable'


POISON = 999331      # the proxy refuses to encode a Tok / Pair carrying this value

TYPES = {'Tok': Tok, 'Pair': Pair, 'Tri': Tri, 'Vec': Vec, 'Unsendable': Unsendable, 'int': int, 'float': float,
         'bool': bool, 'str': str, 'list': list}


def build(spec):
    t, *a = spec
    if t in ('int', 'float', 'bool', 'str'):
        return TYPES[t](a[0])
    if t == 'list':
        return [build(x) if isinstance(x, list) else x for x in a]
    if t == 'Vec':
        return Vec(a)
    return TYPES[t](*a)


class ShmProxy:
    """Typed registers in simulated shared memory; multi-cell types use a list of cells."""

    def __init__(self, mp, regs):
        self.mp = mp
        self.regs = regs          # [[type name, count], ...]

    def copy(self):
        return ShmProxy(self.mp, [list(r) for r in self.regs])

    def register(self):
        return [(TYPES[t], n) for t, n in self.regs]

    def initialize(self, t):
        mp = self.mp
        if t is Tok or t is int:
            return mp.Value('i', 0)
        if t is bool:
            return mp.Value('b', False)
        if t is float:
            return mp.Value('d', 0.0)
        if t is Vec:
            return mp.Array('i', [0, 0, 0])
        if t is Pair:
            return [mp.Value('i', 0), mp.Value('i', 0)]
        if t is Tri:
            return [mp.Array('i', [0, 0]), mp.Value('i', 0), mp.Value('b', False)]
        raise KeyError(t)

    def encode(self, value, cell):
        t = type(value)
        if t is Tok:
            if value.v == POISON:
                raise ValueError('cannot encode this token')
            cell.value = value.v
        elif t in (int, bool, float):
            cell.value = value
        elif t is Vec:
            for i in range(3):
                cell[i] = value.xs[i]
        elif t is Pair:
            cell[0].value = value.a
            if value.b == POISON:
                raise ValueError('cannot encode this pair')
            cell[1].value = value.b
        elif t is Tri:
            cell[0][0] = value.a
            cell[0][1] = value.b
            cell[1].value = value.c
            cell[2].value = True
        else:
            raise KeyError(t)

    def decode(self, t, cell):
        if t is Tok:
            return Tok(cell.value)
        if t is int:
            return int(cell.value)
        if t is float:
            return float(cell.value)
        if t is bool:
            return bool(cell.value)
        if t is Vec:
            return Vec([cell[i] for i in range(3)])
        if t is Pair:
            return Pair(cell[0].value, cell[1].value)
        if t is Tri:
            if not cell[2].value:
                raise ValueError('register was never written')
            return Tri(cell[0][0], cell[0][1], cell[1].value)
        raise KeyError(t)


def poisoned(a):
    return (type(a) is Tok and a.v == POISON) or (type(a) is Pair and a.b == POISON)


def shm_capacity_ok(regs, values):
    """Whether the registers can carry these values at all."""
    left = {t: n for t, n in regs}
    for v in values:
        t = type(v).__name__
        if t not in left or left[t] == 0 or poisoned(v):
            return False
        left[t] -= 1
    return True


WRAPPERS = {'reset': 0, 'get_initial_state_distribution': 0, 'get_initial_state': 0, 'get_observation_space': 0,
            'is_observation': 1, 'get_observation_distribution': 2, 'get_observation': 2, 'get_enabled_events': 1,
            'is_enabled_event': 2, 'get_action_space': 0, 'is_action': 1, 'get_applicable_actions': 1,
            'is_applicable_action': 2, 'step': 1, 'sample': 2, 'get_next_state_distribution': 2, 'get_next_state': 2,
            'get_transition_value': 3, 'is_transition_value_dependent_on_next_state': 0, 'get_goals': 0, 'is_goal': 1,
            'is_terminal': 1, 'check_value': 1, 'render': 1}
LONG_NAME = 'm' * 100
CUSTOM = ['echo', 'two', 'mirror', LONG_NAME, 'nothing', 'first_none', 'slow', 'tally']
FAILING = ['fail', 'fail_late', 'bad_result', 'bad_second', 'over_result', 'poison_result', 'no_such_method']


def h(s):
    return zlib.crc32(s.encode()) % 9973


def stamp(a, n, name):
    x = n * 131 + h(name)
    f = lambda v: (v * 31 + x) % 900001
    t = type(a)
    if t is Tok:
        return Tok(f(a.v))
    if t is Pair:
        return Pair(f(a.a), f(a.b))
    if t is Tri:
        return Tri(f(a.a), f(a.b), f(a.c))
    if t is Vec:
        return Vec([f(v) for v in a.xs])
    if t is bool:
        return bool(a) ^ bool(n & 1)
    if t is int:
        return f(a)
    if t is float:
        return float(f(int(a)))
    if t is str:
        return f'{name}:{n}:{a}'
    if t is list:
        return [stamp(v, n, name) for v in a]
    return a


class DomainError(Exception):
    pass


class SimDomain:
    """Each call counts; each answer depends on the count, so lost, repeated or misrouted calls show."""

    def __init__(self, k=None, transport='pipe', regs=None, hooks=None):
        self._k = k
        self._tr = transport
        self._regs = regs
        self._n = 0
        self._hooks = hooks

    def _pt(self, where):
        if self._k is not None:
            self._k.point('dom ' + where)
            if self._hooks is not None:
                self._hooks(self, where)

    def _do(self, name, args):
        self._pt(name + '<')
        self._n += 1
        n = self._n
        if name == 'fail':
            raise DomainError(f'boom {n}')
        self._pt(name + '=')
        if name == 'fail_late':
            self._pt(name + '>')
            raise [ValueError, KeyError, IndexError, RuntimeError][n % 4](f'late {n}' if n % 3 else 0)
        if name == 'nothing':
            return None
        if name == 'first_none':
            return (None,)
        if name == 'bad_result':
            return Unsendable()
        if name == 'slow':
            for _ in range(12):
                self._pt('slow')
        out = [stamp(a, n, name) for a in args]
        if name == 'bad_second':
            return tuple(out) + (Unsendable(),)
        if name == 'poison_result':
            return tuple(out) + (Tok(POISON),) if self._tr == 'shm' else Unsendable()
        if name == 'over_result':
            if self._tr == 'pipe':
                return Unsendable()
            t, cnt = self._regs[n % len(self._regs)]
            return tuple(sample(t, n * 17 + j) for j in range(cnt + 1))
        if name == 'mirror':
            out = out[::-1]
        if name == 'tally' and args and type(args[0]) is list:
            args[0].append(n)              # mutates its argument: must not reach the caller's object
            out = [list(args[0])]
        self._pt(name + '>')
        if self._tr == 'shm':
            if not out:
                t = self._regs[(n + h(name)) % len(self._regs)][0]
                out = [sample(t, (n * 37 + h(name)) % 900001)]
            return out[0] if len(out) == 1 else tuple(out)
        return (name, n) + tuple(out)


def sample(t, x):
    x = x % 900001
    return {'Tok': lambda: Tok(x), 'Pair': lambda: Pair(x, x + 1), 'Tri': lambda: Tri(x, x + 1, x + 2),
            'Vec': lambda: Vec([x, x + 1, x + 2]), 'int': lambda: x, 'float': lambda: float(x),
            'bool': lambda: bool(x & 1)}[t]()


def _mk(name):
    def method(self, *args):
        return self._do(name, args)
    method.__name__ = name
    return method


for _n in list(WRAPPERS) + CUSTOM + [f for f in FAILING if f != 'no_such_method']:
    setattr(SimDomain, _n, _mk(_n))

LAMBDAS = ['echo', 'mirror', 'fail', 'two']


def lambdas():
    return [lambda d, *a: d.echo(*a), lambda d, *a: d.mirror(*a), lambda d, *a: d.fail(*a), lambda d, *a: d.two(*a)]


def expected(ref, transport, regs, method, args):
    """What a request must yield, by running the reference domain in-process. None also stands for failure."""
    if transport == 'shm' and method != 'no_such_method' and len(method) <= 100:
        pass
    try:
        if method == 'no_such_method':
            raise AttributeError(method)
        r = getattr(ref, method)(*args)
    except Exception as e:
        return None, f'raised {type(e).__name__}'
    if transport == 'pipe':
        if contains_unsendable(r):
            return None, 'unsendable result'
        return r, 'ok'
    rs = list(r) if type(r) is tuple else [r]
    if rs[0] is None:
        return None, 'ok'
    if not shm_capacity_ok(regs, rs):
        return None, 'unsendable result'
    return (rs if len(rs) > 1 else rs[0]), 'ok'


def contains_unsendable(r):
    if type(r) is Unsendable:
        return True
    return type(r) in (tuple, list) and any(contains_unsendable(x) for x in r)


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
