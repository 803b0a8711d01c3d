"""Histories of operations on several environments of one or more generated domain classes, checked against a
reference that keeps nothing but the sequence of states."""
import collections
import copy
import hashlib
import random

from harness import envdom as E
from harness.common import Harness, Outcome, drop_each

RANDOM_OPS = {'reset', 'step', 'sample'}


def by_name(x):
    return sorted(x, key=lambda v: v.real)


class Inst:
    def __init__(self, spec):
        self.s = spec
        self.b = E.Beh(spec)
        self.dom = None
        self.mem = None          # None: unknown; else tuple of canonical states
        self.view = spec.get('view')


class Run:
    def __init__(self, spec):
        self.spec = spec
        self.v = []
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.h = hashlib.sha256()
        self.log = []
        self.arm = None
        self.held = []           # (object handed over by or to the caller, its content, where)

    def fail(self, cls, detail):
        self.v.append((cls, detail))

    # -------------------------------------------------------------------------------------------- seams
    def hook(self, dom, where):
        self.stats['domain calls'] += 1
        if self.arm is not None:
            if self.arm == 0:
                self.arm = None
                self.boom = where
                raise E.Boom(where)
            self.arm -= 1

    # -------------------------------------------------------------------------------------------- views
    def make_view(self, it):
        import skdecide.builders.domain as bd
        from skdecide import Domain
        from skdecide.core import autocast_all
        w = it.view
        bases = [Domain]
        if w['agent'] == 'single':
            bases.append(bd.SingleAgent)
        if w['conc'] == 'seq':
            bases.append(bd.Sequential)
        if w['mem'] == 'markov':
            bases.append(bd.Markovian)
        T = type('View', tuple(bases), {})
        autocast_all(it.dom, it.dom, T)

    def agent_in(self, it, x):
        if it.view and it.view['agent'] == 'multi' and it.s['agent'] == 'single':
            return {'agent': x}
        return x

    def agent_out(self, it, x):
        if it.view and it.view['agent'] == 'multi' and it.s['agent'] == 'single':
            if not isinstance(x, dict) or len(x) != 1:
                raise TypeError(f'not a dict of one agent: {x!r}')
            return next(iter(x.values()))
        return x

    def act_in(self, it, a):
        if it.view and it.view['conc'] == 'par' and it.s['conc'] == 'seq':
            a = {g: [x] for g, x in a.items()} if isinstance(a, dict) else [a]
        return self.agent_in(it, a)

    def mem_in(self, it, m, r=0):
        """A memory object for the caller's side, from canonical states."""
        from skdecide import Memory
        st = [self.state_obj(it, x) for x in m]
        if it.s['mem'] in ('markov', 'less'):
            if it.view and it.view['mem'] == 'hist':
                if not st:      # what a caller remembers does not matter to a memoryless domain
                    st = [self.state_obj(it, E.frz(it.b.state('seen', r)))]
                older = [self.state_obj(it, E.frz(it.b.state('older', r, j))) for j in range(r % 3)]
                return Memory(older + st)
            return st[0] if st else None
        if r % 3 == 0 and it.s['mem'] == 'fin':
            return Memory(st, maxlen=it.s['maxlen'])
        return Memory(st)

    def state_obj(self, it, c):
        return dict(c) if it.s['agent'] == 'multi' else c

    # -------------------------------------------------------------------------------------------- main
    def execute(self):
        import skdecide  # noqa
        random.seed(self.spec['seed'])
        classes = [E.make(s, self.hook) for s in self.spec['classes']]
        self.its = []
        for i, c in enumerate(self.spec['insts']):
            own = self.spec['own'][i]
            it = Inst({**self.spec['classes'][c], **own})
            it.view = self.spec['views'][i]
            it.dom = classes[c](own)
            if it.view:
                self.make_view(it)
            self.its.append(it)
        for n, o in enumerate(self.spec['ops']):
            it = self.its[o['i'] % len(self.its)]
            self.n = n
            self.do(it, o)
            if self.v:
                break
            self.check_held()
            if self.v:
                break
        return self

    def hold(self, x, where):
        if len(self.held) < 40:
            self.held.append((x, E.frz(list(x) if not isinstance(x, (dict, int)) else x), where))

    def check_held(self):
        for x, c, where in self.held:
            now = E.frz(list(x) if not isinstance(x, (dict, int)) else x)
            if now != c:
                self.fail('caller-object-changed', f'op {self.n}: {where} changed from {c} to {now}')
                return

    def pick(self, it, r):
        pick = lambda k: it.b.actions[k % len(it.b.actions)]
        if it.s['conc'] == 'par':
            one = lambda k: [pick(k + j) for j in range(1 + k % 2)]
        else:
            one = pick
        if it.s['agent'] == 'multi':
            return {g: one(r // (3 ** j)) for j, g in enumerate(it.b.agents)}
        return one(r)

    def some_mem(self, it, r):
        """canonical memory made of plausible states"""
        if it.s['mem'] == 'less':
            return ()
        n = 1 if it.s['mem'] == 'markov' else 1 + r % (it.s['maxlen'] if it.s['mem'] == 'fin' else 5)
        return tuple(E.frz(it.b.state('some', r, j)) for j in range(n))

    def push(self, it, m, s):
        if it.s['mem'] == 'less':
            return ()
        if it.s['mem'] == 'markov':
            return (s,)
        m = m + (s,)
        return m[-it.s['maxlen']:] if it.s['mem'] == 'fin' else m

    def support(self, d):
        return [v for v, w in d if w > 0]

    def values_of(self, dist):
        """positive (value, probability) pairs of a distribution object, or a sample of it"""
        if hasattr(dist, 'get_values'):
            return [(v, w) for v, w in dist.get_values() if w > 0]
        return [(dist.sample(), None)]

    def check_dist(self, it, what, dist, ref, conv=lambda x: x):
        ref = [(E.frz(v), w) for v, w in ref if w > 0]
        tot = sum(w for _, w in ref)
        got = [(E.frz(conv(v)), w) for v, w in self.values_of(dist)]
        exp = collections.Counter()
        for v, w in ref:
            exp[v] += w / tot
        if got and got[0][1] is None:
            if got[0][0] not in exp:
                self.fail('distribution', f'op {self.n} {what}: sampled {got[0][0]}, possible {dict(exp)}')
            return
        t = sum(w for _, w in got)
        g = collections.Counter()
        for v, w in got:
            g[v] += w / t
        if set(g) != set(exp) or any(abs(g[v] - exp[v]) > 1e-9 for v in exp):
            self.fail('distribution', f'op {self.n} {what}: {dict(g)} instead of {dict(exp)}')

    def outcome(self, it, what, m, a, out):
        """Check an outcome of a transition from canonical memory m; returns the next canonical state."""
        try:
            o = self.agent_out(it, out.observation)
            val = self.agent_out(it, out.value)
            info = self.agent_out(it, out.info)
        except Exception as e:
            self.fail('outcome-shape', f'op {self.n} {what}: {e}')
            return None
        try:
            s = it.b.state_of(o)
        except Exception:
            self.fail('outcome-shape', f'op {self.n} {what}: observation {o!r}')
            return None
        poss = [E.frz(x) for x in self.support(it.b.nexts(m, a))]
        if E.frz(s) not in poss:
            self.fail('next-state', f'op {self.n} {what}: memory {m} action {a}: next state {s}, possible {poss}')
            return None
        b_agents = it.b.agents
        if E.frz(o) not in [E.frz(x) for x in self.support(it.b.obs(s, a))]:
            self.fail('observation', f'op {self.n} {what}: observation {o} of state {s} after action {a}')
        for g, x in val.items() if b_agents else [(None, val)]:
            k, y = it.b.value(m, a, s)[g] if b_agents else it.b.value(m, a, s)
            if (x.reward, x.cost) != ((y, -y) if k == 'reward' else (-y, y)):
                self.fail('value', f'op {self.n} {what}: reward {x.reward} cost {x.cost}, expected {k} {y}')
        if val != E.tv(it.b.value(m, a, s)):
            self.fail('value', f'op {self.n} {what}: value {val}, expected {E.tv(it.b.value(m, a, s))}')
        if bool(out.termination) != it.b.terminal(s):
            self.fail('termination', f'op {self.n} {what}: termination {out.termination} for state {s}')
        if info != it.b.info(m, a, s):
            self.fail('info', f'op {self.n} {what}: info {info}, expected {it.b.info(m, a, s)}')
        return E.frz(s)

    def real(self, name, f, *args, **kw):
        """Returns (raised, value)."""
        try:
            return False, f(*args, **kw)
        except E.Boom:
            self.arm = None
            self.faults[f'domain code raises in {self.boom}'] += 1
            return True, None
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.fail('raises', f'op {self.n} {name}: {type(e).__name__}: {e} ({tb.filename.split("/")[-1]}:{tb.name})')
            return True, None

    def do(self, it, o):
        op, r = o['op'], o['r']
        d, b = it.dom, it.b
        k = it.s['trans']
        needs = {'sample': 'sim', 'set_memory': 'sim', 'next_dist': 'unc', 'value': 'unc', 'terminal': 'unc',
                 'next_state': 'det'}
        level = {'env': 0, 'sim': 1, 'unc': 2, 'enum': 2, 'det': 3}
        if op in needs and level[k] < {'sim': 1, 'unc': 2, 'det': 3}[needs[op]]:
            op = 'step'
        if op == 'render' and not it.s.get('render'):
            op = 'step'
        if op == 'init_dist' and it.s['init'] == 'init':
            op = 'reset'
        if op == 'init_state' and it.s['init'] != 'det':
            op = 'reset'
        if op == 'goal' and not it.s['goals']:
            op = 'appl'
        if op == 'constr' and not it.s['constr'] or op == 'obs' and it.s['obs'] == 'part':
            op = 'obs_dist'
        if op == 'fork' and (it.view or len(self.its) >= 4):
            op = 'step'
        if it.mem is None and (op in ('step', 'appl', 'is_appl', 'render', 'events', 'is_event') or
                               op in ('appl_from', 'events_from') and it.s['mem'] == 'less'):
            op = 'reset'
        self.arm = o.get('boom')
        self.boom = None
        self.stats['ops'] += 1
        a = self.pick(it, r)
        self.h.update(repr((op, r)).encode())
        st = self.state_obj(it, E.frz(b.state('any', r % 7)))
        if op == 'reset':
            x, out = self.real(op, d.reset)
            if x:
                it.mem = None        # what a failed reset leaves is not promised: start again
            else:
                out = self.agent_out(it, out)
                try:
                    s = b.state_of(out)
                    ok = E.frz(s) in [E.frz(x) for x in self.support(b.initials())] and \
                        E.frz(out) in [E.frz(x) for x in self.support(b.obs(s, None))]
                except Exception:
                    ok = False
                if not ok:
                    self.fail('reset', f'op {self.n}: initial observation {out}, initial states '
                                       f'{self.support(b.initials())}')
                    return
                it.mem = () if it.s['mem'] == 'less' else (E.frz(s),)
                self.h.update(repr(it.mem).encode())
                self.stats['resets'] += 1
        elif op == 'step':
            x, out = self.real(op, d.step, self.act_in(it, a))
            if not x:
                s = self.outcome(it, op, it.mem, a, out)
                if s is not None:
                    it.mem = self.push(it, it.mem, s)
                    self.h.update(repr(s).encode())
                    self.stats['steps'] += 1
        elif op == 'sample':
            m = self.some_mem(it, r)
            mo = self.mem_in(it, m, r)
            if it.s['mem'] in ('hist', 'fin'):
                self.hold(mo, 'memory given to sample')
            x, out = self.real(op, d.sample, mo, self.act_in(it, a))
            if not x:
                self.outcome(it, op, m, a, out)
                self.stats['samples'] += 1
        elif op == 'set_memory':
            m = self.some_mem(it, r)
            mo = self.mem_in(it, m, r)
            x, out = self.real(op, d.set_memory, mo)
            it.mem = m
            if it.s['mem'] in ('hist', 'fin'):
                if r % 5 == 0 and not it.view:
                    mo.append(self.state_obj(it, E.frz(b.state('late', r))))
                    self.faults['caller changes the memory object it handed over'] += 1
                self.hold(mo, 'memory given to set_memory')
            self.stats['memories set'] += 1
        elif op == 'next_dist':
            m = self.some_mem(it, r)
            x, out = self.real(op, d.get_next_state_distribution, self.mem_in(it, m, r), self.act_in(it, a))
            if not x:
                self.check_dist(it, op, out, b.nexts(m, a))
        elif op == 'next_state':
            m = self.some_mem(it, r)
            x, out = self.real(op, d.get_next_state, self.mem_in(it, m, r), self.act_in(it, a))
            if not x and E.frz(out) != E.frz(b.nexts(m, a)[0][0]):
                self.fail('next-state', f'op {self.n} {op}: {out}')
        elif op == 'value':
            m = self.some_mem(it, r)
            x, out = self.real(op, d.get_transition_value, self.mem_in(it, m, r), self.act_in(it, a), st)
            if not x and self.agent_out(it, out) != E.tv(b.value(m, a, st)):
                self.fail('value', f'op {self.n} {op}: {out} instead of {E.tv(b.value(m, a, st))}')
            if d.is_transition_value_dependent_on_next_state() != it.s['next_dep']:
                self.fail('value', f'op {self.n}: is_transition_value_dependent_on_next_state')
        elif op == 'terminal':
            x, out = self.real(op, d.is_terminal, st)
            if not x and bool(out) != b.terminal(st):
                self.fail('termination', f'op {self.n} {op}: {out}')
        elif op == 'obs_dist':
            act = a if r % 2 else None
            x, out = self.real(op, d.get_observation_distribution, st, self.act_in(it, act) if r % 2 else None)
            if not x:
                self.check_dist(it, op, out, b.obs(st, act), lambda v: self.agent_out(it, v))
        elif op in ('appl', 'appl_from', 'is_appl'):
            given = op == 'appl_from' or op == 'is_appl' and r // 97 % 2 == 0 and it.s['mem'] != 'less'
            m = self.some_mem(it, r) if given else it.mem
            ref = b.applicable(m) if not it.s['unrestricted'] else b.action_space()
            if op == 'is_appl':
                one = {g: b.actions[(r + j) % len(b.actions)] for j, g in enumerate(b.agents)} if b.agents else \
                    b.actions[r % len(b.actions)]
                exp = all(one[g] in ref[g] for g in b.agents) if b.agents else one in ref
                x, out = self.real(op, d.is_applicable_action, self.agent_in(it, one),
                                   *([self.mem_in(it, m, r)] if given else []))
                if not x and bool(out) != exp:
                    self.fail('applicable', f'op {self.n}: {one} applicable: {out}, memory {m}')
            else:
                x, out = self.real(op, d.get_applicable_actions, *([self.mem_in(it, m, r)] if given else []))
                if not x:
                    out = self.agent_out(it, out)
                    got = {g: by_name(s.get_elements()) for g, s in out.items()} if b.agents else \
                        by_name(out.get_elements())
                    if got != ref:
                        self.fail('applicable', f'op {self.n} {op}: {got} instead of {ref}, memory {m}')
        elif op in ('events', 'events_from', 'is_event'):
            given = op == 'events_from' or op == 'is_event' and r // 97 % 2 == 0 and it.s['mem'] != 'less'
            m = self.some_mem(it, r) if given else it.mem
            ref = b.events(m)
            mo = [self.mem_in(it, m, r)] if given else []
            if op == 'is_event':
                x, out = self.real(op, d.is_enabled_event, 20 + r % 6, *mo)
                if not x and bool(out) != (20 + r % 6 in ref):
                    self.fail('events', f'op {self.n}: event {20 + r % 6} enabled: {out}, memory {m}')
            else:
                x, out = self.real(op, d.get_enabled_events, *mo)
                if not x and sorted(out.get_elements()) != ref:
                    self.fail('events', f'op {self.n} {op}: {sorted(out.get_elements())} instead of {ref}, memory {m}')
        elif op == 'is_obs':
            o_ = b.obs(st, a)[0][0]
            x, out = self.real(op, d.is_observation, self.agent_in(it, o_))
            if not x and bool(out) != b.seen(o_):
                self.fail('observation', f'op {self.n}: {o_} an observation: {out}')
            x, out = self.real(op, d.get_observation_space)
            if not x:
                out = self.agent_out(it, out)
                got = {g: out[g].contains(o_[g]) for g in b.agents} if b.agents else out.contains(o_)
                if got != ({g: b.seen1(g, o_[g]) for g in b.agents} if b.agents else b.seen1(0, o_)):
                    self.fail('observation', f'op {self.n}: {o_} in the observation space: {got}')
        elif op == 'goal':
            o_ = b.obs(st, a)[0][0]
            x, out = self.real(op, d.is_goal, self.agent_in(it, o_))
            if not x and bool(out) != b.goal(o_):
                self.fail('goal', f'op {self.n}: {o_}: {out}')
        elif op == 'constr':
            m = self.some_mem(it, r)
            x, out = self.real(op, d.get_constraints)
            if not x:
                mo, ao = self.mem_in(it, m, r), self.act_in(it, a)
                exp = [b.constraint(0, m, a, st) > 500, {'<': lambda v: v < 500, '<=': lambda v: v <= 500,
                                                         '>': lambda v: v > 500, '>=': lambda v: v >= 500}[
                    it.s['constr']](b.constraint(1, m, a, st))]
                x, got = self.real(op, lambda: [c.check(mo, ao, st) for c in out])
                if not x and got != exp:
                    self.fail('constraint', f'op {self.n}: constraints {got} instead of {exp}, memory {m} action {a}')
        elif op == 'obs':
            x, out = self.real(op, d.get_observation, st, self.act_in(it, a))
            if not x and E.frz(self.agent_out(it, out)) != E.frz(b.obs(st, a)[0][0]):
                self.fail('observation', f'op {self.n}: observation {out} of state {st} after {a}')
        elif op == 'is_action':
            one = b.actions[-1].real + r % 2
            sp = self.real(op, d.get_action_space)
            if not b.agents:
                x, out = self.real(op, d.is_action, one)
                if not x and bool(out) != (one in b.actions):
                    self.fail('applicable', f'op {self.n}: is_action({one}) is {out}')
            if not sp[0]:
                got = self.agent_out(it, sp[1])
                got = {g: by_name(z.get_elements()) for g, z in got.items()} if b.agents else by_name(got.get_elements())
                if got != b.action_space():
                    self.fail('applicable', f'op {self.n}: action space {got}')
        elif op == 'init_dist':
            x, out = self.real(op, d.get_initial_state_distribution)
            if not x:
                self.check_dist(it, op, out, b.initials())
        elif op == 'init_state':
            x, out = self.real(op, d.get_initial_state)
            if not x and E.frz(out) != E.frz(b.initials()[0][0]):
                self.fail('reset', f'op {self.n}: initial state {out}')
        elif op == 'render':
            seen = []
            d.on_render = seen.append
            m = it.mem
            kw = {}
            if r % 2:
                m = self.some_mem(it, r)
                x, out = self.real(op, d.render, self.mem_in(it, m, r))
            else:
                x, out = self.real(op, d.render)
            if not x and seen != [m] and not (r % 2 and it.s['mem'] == 'less'):
                self.fail('render', f'op {self.n}: rendered {seen}, memory {m}')
        elif op == 'fork':
            c = Inst(it.s)
            c.dom = copy.deepcopy(d)
            c.mem = it.mem
            self.its.append(c)
            self.faults['environment duplicated'] += 1
        self.arm = None


OPS = ['reset'] + ['step'] * 8 + ['sample'] * 3 + ['set_memory'] * 2 + ['next_dist', 'next_state', 'value', 'terminal',
                                                                      'obs_dist', 'goal', 'init_dist', 'init_state',
                                                                      'render', 'fork', 'constr', 'obs', 'is_action', 'is_obs', 'events',
                                                                      'events_from'] + ['is_event'] * 3 + ['appl', 'appl_from', 'is_appl'] * 2


def gen(rng, tier):
    big = tier == 'thorough'
    classes = [E.gen_spec(rng) for _ in range(rng.choice([1, 1, 2]))]
    insts = [rng.randrange(len(classes)) for _ in range(rng.choice([1, 2, 2, 3]))]
    views = []
    for c in insts:
        s = classes[c]
        views.append(None if rng.random() < .5 else {
            'agent': 'multi' if s['agent'] == 'multi' else rng.choice(['single', 'multi']),
            'conc': 'par' if s['conc'] == 'par' else rng.choice(['seq', 'par']),
            'mem': rng.choice(['markov', 'hist']) if s['mem'] in ('markov', 'less') else 'hist'})
    faulty = rng.random() < .5
    ops = []
    for _ in range(rng.randint(5, 80 if big else 40)):
        o = {'op': rng.choice(OPS), 'i': rng.randrange(6), 'r': rng.randrange(1000)}
        if faulty and rng.random() < .12:
            o['boom'] = rng.randrange(4)
        ops.append(o)
    own = [{'salt': rng.randrange(1 << 30), 'maxlen': rng.randint(1, 4), 'n_actions': rng.randint(1, 4)} for _ in insts]
    return {'own': own, 'seed': rng.randrange(1 << 30), 'classes': classes, 'insts': insts, 'views': views, 'ops': ops}


class EnvHarness(Harness):
    runs = {'quick': 12000, 'thorough': 300000}
    rule = 'every outcome is one the domain\'s own functions allow from the sequence of states the caller saw; failed ' \
           'steps change nothing; caller objects never change; environments do not influence one another'
    real = ['skdecide.builders.domain (dynamics, memory, initialization, observability, events, goals, renderability)',
            'skdecide.core (distributions, memory, outcome classes, autocast)', 'skdecide.domains.Domain']
    stub = ['the domain functions themselves: generated, every answer a hash of what they were given',
            'the random module: seeded by the simulator']
    assumptions = ['domain functions are deterministic apart from the distributions they return']

    def gen(self, rng, tier):
        return gen(rng, tier)

    def execute(self, spec, record=False):
        r = Run(copy.deepcopy(spec)).execute()
        st = dict(r.stats)
        return Outcome(r.v, st, dict(r.faults), r.h.hexdigest(), st.get('ops', 0), float(st.get('steps', 0)),
                       st.get('steps', 0) + st.get('samples', 0) >= 2, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops']):
            yield {**spec, 'ops': ops}
        if len(spec['insts']) > 1:
            for i in range(len(spec['insts'])):
                yield {**spec, 'insts': spec['insts'][:i] + spec['insts'][i + 1:],
                       'views': spec['views'][:i] + spec['views'][i + 1:],
                       'own': spec['own'][:i] + spec['own'][i + 1:]}
        for i, w in enumerate(spec['views']):
            if w:
                yield {**spec, 'views': spec['views'][:i] + [None] + spec['views'][i + 1:]}
        for i, o in enumerate(spec['ops']):
            if 'boom' in o:
                yield {**spec, 'ops': spec['ops'][:i] + [{k: v for k, v in o.items() if k != 'boom'}] +
                       spec['ops'][i + 1:]}
            if o['r']:
                yield {**spec, 'ops': spec['ops'][:i] + [{**o, 'r': o['r'] // 2}] + spec['ops'][i + 1:]}


CHECKS = {'C16': EnvHarness()}
