"""Generated solvers on generated domains: what a solver is given and what its callers get back, over histories of
solving, asking, saving, loading and failing."""
import collections
import copy
import hashlib
import os
import random
import shutil
import tempfile

from harness import env as EN
from harness import envdom as E
from harness.common import Harness, Outcome, drop_each

LEVELS = {'trans': ['env', 'sim', 'unc', 'enum', 'det'], 'mem': ['hist', 'fin', 'markov', 'less'],
          'obs': ['part', 'trans', 'full'], 'agent': ['multi', 'single'], 'conc': ['par', 'seq'],
          'init': ['none', 'init', 'unc', 'det'], 'events': ['events', 'actions', 'unrestricted'],
          'value': ['reward', 'cost']}


def domain_level(s, k):
    if k == 'events':
        return 'unrestricted' if s['unrestricted'] else 'events' if s.get('events') else 'actions'
    return s[k]


def compliant(sol, dom):
    for k, order in LEVELS.items():
        if order.index(sol[k]) > order.index(domain_level(dom, k)):
            return False
    return all(dom.get(k) or not sol[k] for k in ('goals', 'constr', 'render'))


def gen_solver(rng, dom=None):
    """A solver which accepts a given domain, or any solver."""
    s = {'salt': rng.randrange(1 << 30)}
    for k, order in LEVELS.items():
        top = order.index(domain_level(dom, k)) if dom else len(order) - 1
        s[k] = order[rng.randint(0, top) if rng.random() < .6 else top]
    for k in ('goals', 'constr', 'render'):
        s[k] = bool((dom is None or dom.get(k)) and rng.random() < .3)
    s['policy'] = rng.choice(['pol', 'unc', 'det', 'det'])
    s['values'] = rng.choice([None, 'u', 'q', 'q'])
    s['nested'] = rng.random() < .4
    s['extra'] = rng.random() < .3
    return s


def make_solver(s, run):
    import skdecide.builders.domain as bd
    from skdecide import Domain, Solver, DiscreteDistribution
    from skdecide.builders.solver import Policies, UncertainPolicies, DeterministicPolicies, Utilities, QValues, Restorable
    pick = {'trans': {'sim': bd.Simulation, 'unc': bd.UncertainTransitions, 'enum': bd.EnumerableTransitions,
                      'det': bd.DeterministicTransitions},
            'mem': {'fin': bd.FiniteHistory, 'markov': bd.Markovian, 'less': bd.Memoryless},
            'obs': {'trans': bd.TransformedObservable, 'full': bd.FullyObservable}, 'agent': {'single': bd.SingleAgent},
            'conc': {'seq': bd.Sequential}, 'init': {'init': bd.Initializable, 'unc': bd.UncertainInitialized,
                                                     'det': bd.DeterministicInitialized},
            'events': {'actions': bd.Actions, 'unrestricted': bd.UnrestrictedActions}, 'value': {'cost': bd.PositiveCosts}}
    bases = [pick[k][s[k]] for k in LEVELS if s[k] in pick[k]]
    bases += [c for k, c in (('goals', bd.Goals), ('constr', bd.Constrained), ('render', bd.Renderable)) if s[k]]
    if s['nested'] and len(bases) > 1:
        mid = type('Mid', (Domain, *bases[::2]), {})
        D = type('D', (mid, *bases[1::2]), {})
        if s['salt'] % 2:
            D = type('D2', (D,), {})
    else:
        D = type('D', (Domain, *bases), {})

    def answer(self, o):
        return {g: [E.H(s['salt'], self.token, E.frz(o), g, j) % 97 for j in range(1 + (s['salt'] % 3 if s['par_many'] else 0))]
                for g in (o if isinstance(o, dict) and s['agent'] == 'multi' else ['_'])}

    def shaped(x):
        """agent dict of lists -> the form of this solver's level"""
        if s['conc'] == 'seq':
            x = {g: v[0] for g, v in x.items()}
        return x if s['agent'] == 'multi' else x['_']

    def seen(self, what, *args):
        run.seen = (what, args)
        run.hook(self, 'solver.' + what)

    class Sim(Solver):
        T_domain = D

        def __init__(self):
            self.token = None

        @classmethod
        def _check_domain_additional(cls, domain):
            run.hook(None, 'solver.check')
            return domain.b.salt % 2 == 0

        def _solve_domain(self, domain_factory):
            run.inside(self, domain_factory)
            self.token = run.token

        def _solve_from(self, memory):
            seen(self, 'solve_from', memory)

        def _reset(self):
            seen(self, 'reset')

        def _initialize(self):
            seen(self, 'initialize')

        def _cleanup(self):
            seen(self, 'cleanup')

    ns = {}
    if s['policy'] == 'det':
        def _get_next_action(self, observation):
            seen(self, 'ask', observation)
            return shaped(answer(self, observation))
        ns['_get_next_action'] = _get_next_action
    elif s['policy'] == 'unc':
        def _get_next_action_distribution(self, observation):
            seen(self, 'ask', observation)
            a = answer(self, observation)
            b = {g: [x + 100 for x in v] for g, v in a.items()}
            return DiscreteDistribution([(shaped(a), .25), (shaped(b), .75)])
        ns['_get_next_action_distribution'] = _get_next_action_distribution
    else:
        def _sample_action(self, observation):
            seen(self, 'ask', observation)
            return shaped(answer(self, observation))
        ns['_sample_action'] = _sample_action

    def _is_policy_defined_for(self, observation):
        seen(self, 'defined', observation)
        return E.H(s['salt'], self.token, E.frz(observation)) % 2 == 0

    def _get_utility(self, observation):
        seen(self, 'utility', observation)
        return E.H(s['salt'], self.token, E.frz(observation), 'u') % 1000

    def _get_q_value(self, observation, action):
        seen(self, 'q', observation, action)
        return E.H(s['salt'], self.token, E.frz(observation), E.frz(action), 'q') % 1000

    def _save(self, path):
        seen(self, 'save')
        with open(path, 'w') as f:
            f.write(repr(self.token))

    def _load(self, path, domain_factory):
        with open(path) as f:
            t = eval(f.read())
        run.inside(self, domain_factory)
        self.token = t
    ns.update({'_is_policy_defined_for': _is_policy_defined_for, '_save': _save, '_load': _load})
    bases = [Sim, {'det': DeterministicPolicies, 'unc': UncertainPolicies, 'pol': Policies}[s['policy']], Restorable]
    if s['values']:
        bases.append(QValues if s['values'] == 'q' else Utilities)
        ns['_get_utility'] = _get_utility
        ns['_get_q_value'] = _get_q_value
    T = type('SimSolver', tuple(bases), ns)
    if not s['extra']:      # the default applies
        del Sim._check_domain_additional
    return T


class Run:
    def __init__(self, spec):
        self.spec = spec
        self.v = []
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.h = hashlib.sha256()
        self.arm = None
        self.seen = None
        self.log = []
        self.token = None

    def fail(self, cls, detail):
        self.v.append((cls, f'op {self.n}: {detail}'))

    def hook(self, who, where):
        if self.arm is not None:
            if self.arm == 0:
                self.arm = None
                raise E.Boom(where)
            self.arm -= 1

    # ------------------------------------------------------------------------------------------ the reference's casts
    def up(self, s, d, x):
        """an observation of the domain as the solver sees it"""
        return {'agent': x} if s['agent'] == 'multi' and d['agent'] == 'single' else x

    def up_action(self, s, d, a):
        if s['conc'] == 'par' and d['conc'] == 'seq':
            a = {g: [x] for g, x in a.items()} if d['agent'] == 'multi' else [a]
        return self.up(s, d, a)

    def expected(self, s, d, o, token, shift=0):
        """the action the caller must get"""
        o = self.up(s, d, o)
        n = 1 + (s['salt'] % 3 if s['par_many'] else 0)
        one = lambda g: [E.H(s['salt'], token, E.frz(o), g, j) % 97 + shift for j in range(n)]
        if s['agent'] == 'multi':
            x = {g: one(g) for g in o}
            if d['conc'] == 'seq':
                x = {g: v[0] for g, v in x.items()}
            return x if d['agent'] == 'multi' else next(iter(x.values()))
        x = one('_')
        return x[0] if d['conc'] == 'seq' else x

    # ------------------------------------------------------------------------------------------ inside a solver
    def inside(self, solver, factory):
        """What the solver does while it solves: it works on the domains it makes, at its own level."""
        s, d = self.cur
        r = EN.Run({'ops': []})
        r.hook = lambda dom, where: EN.Run.hook(r, dom, where)
        self.inner = r
        for k in range(self.op['domains']):
            dom = factory()
            it = EN.Inst(d)
            it.dom = dom
            it.view = {k: s[k] for k in ('agent', 'conc')}
            it.view['mem'] = 'hist' if s['mem'] in ('hist', 'fin') else 'markov'
            if d['mem'] in ('hist', 'fin'):
                it.view['mem'] = 'hist'
            r.its = [it]
            for n, o in enumerate(self.op['work']):
                r.n = n
                r.do(it, o)
                if r.v:
                    self.v += [('inside-' + c, f'op {self.n}: {t}') for c, t in r.v]
                    return
        self.stats['operations of solvers on their domains'] += r.stats['ops']
        self.faults.update(r.faults)
        self.h.update(r.h.digest())
        self.arm = self.op.get('boom')
        self.hook(solver, 'solver.solve')
        self.arm = None

    # ------------------------------------------------------------------------------------------ main
    def call(self, f, *a, **kw):
        """(failed, value); a failure must be the injected one."""
        self.seen = None
        self.arm = self.op.get('boom')
        armed = self.arm is not None
        try:
            v = f(*a, **kw)
        except E.Boom:
            self.faults['solver code raises'] += 1
            return True, None
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.fail('raises', f'{self.op["op"]}: {type(e).__name__}: {e} ({tb.filename.split("/")[-1]}:{tb.name})')
            return True, None
        if armed and self.arm is None:
            self.fail('swallowed', f'{self.op["op"]}: a failure of the solver did not reach its caller')
        self.arm = None
        return False, v

    def registered(self, r, dom, solver_cls, exp):
        """The same classes, registered as entry points of which some cannot be loaded."""
        from skdecide import utils
        run = self

        class Point:
            def __init__(self, name, what, how):
                self.name, self.what, self.how = name, what, how

            def load(self, *a, **k):
                if self.how:
                    run.faults[f'a registered class cannot be loaded: {self.how}'] += 1
                    if self.how == 'import':
                        raise ImportError('no such module')
                    if self.how == 'code':
                        raise ZeroDivisionError('while importing')
                    raise utils.DistributionNotFound(self.how, None)
                return self.what
            resolve = load
        hows = [[None, None, 'import', 'code', "requirement extra == \"all\"", 'requirement'][E.H(r, j) % 6] for j in range(len(solver_cls))]
        points = {'skdecide.solvers': [Point(f'S{j}', c, h) for j, (c, h) in enumerate(zip(solver_cls, hows))],
                  'skdecide.domains': [Point(f'{"SD"[j % 2]}{j}', c, None) for j, c in enumerate(self.classes)],
                  'others': [Point('S0', int, None)]}
        utils.logger.setLevel('ERROR')
        real = utils.iter_entry_points
        utils.iter_entry_points = lambda group, name=None: iter([p for p in points.get(group, []) if name in (None, p.name)])
        try:
            x, got = self.call(utils.get_registered_solvers)
            if not x and list(got) != [p.name for p in points['skdecide.solvers']]:
                self.fail('registered', f'solvers {got}')
            x, got = self.call(utils.get_registered_domains)
            if not x and list(got) != [p.name for p in points['skdecide.domains']]:
                self.fail('registered', f'domains {got}')
            for name in [f'S{j}' for j in range(len(solver_cls))] + ['S99', 'D0']:
                ref = [p.what for p in points['skdecide.solvers'] if p.name == name and not p.how]
                x, got = self.call(utils.load_registered_solver, name)
                if not x and got is not (ref[0] if ref else None):
                    self.fail('registered', f'solver {name}: {got}')
            for name in ['S0', 'D1', 'S1']:
                ref = [p.what for p in points['skdecide.domains'] if p.name == name]
                x, got = self.call(utils.load_registered_domain, name)
                if not x and got is not (ref[0] if ref else None):
                    self.fail('registered', f'domain {name}: {got}')
            ok = [c for c, h in zip(solver_cls, hows) if not h]
            x, got = self.call(utils.match_solvers, dom)
            if not x and got != [c for c in ok if c in exp]:
                self.fail('registered', f'matching {[solver_cls.index(c) for c in got]} of those which can be loaded, '
                                        f'{[solver_cls.index(c) for c in exp]} comply, failures {hows}')
        finally:
            utils.iter_entry_points = real

    def execute(self):
        random.seed(self.spec['seed'])
        self.tmp = tempfile.mkdtemp(prefix='simsolver')
        try:
            self.go()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        return self

    def go(self):
        from skdecide.utils import match_solvers
        sp = self.spec
        self.classes = [E.make(d, lambda dom, where: self.inner.hook(dom, where) if self.busy else None) for d in sp['domains']]
        self.busy = False
        solver_cls = [make_solver(s, self) for s in sp['solvers']]
        self.solvers = [solver_cls[i]() for i in sp['insts']]
        self.where = [None] * len(self.solvers)        # the domain the solver is cast to
        self.tokens = [None] * len(self.solvers)
        self.saved = {}
        self.shared = {}
        for self.n, o in enumerate(sp['ops']):
            self.op = o
            i = o['i'] % len(self.solvers)
            s = sp['solvers'][sp['insts'][i]]
            sol = self.solvers[i]
            op = o['op']
            self.stats['ops'] += 1
            self.h.update(repr((op, i, o['r'])).encode())
            if op in ('solve', 'load', 'resolve'):
                fits = [j for j, d in enumerate(sp['domains']) if compliant(s, d)]
                if op == 'load' and not self.saved or not fits:
                    continue
                j = fits[o['r'] % len(fits)]
                if op == 'resolve':
                    if self.where[i] is None:
                        continue
                    j = self.where[i]
                d, cls = sp['domains'][j], self.classes[j]
                own = sp['own'][o['r'] % len(sp['own'])]
                self.cur = (s, {**d, **own})
                self.token = (self.n, j)
                if o['same']:
                    # the factory hands out one and the same object every time
                    if j not in self.shared:
                        self.shared[j] = (cls(own), own)
                    obj, own = self.shared[j]
                    self.cur = (s, {**d, **own})
                    factory = lambda: obj
                else:
                    factory = lambda: cls(own)
                self.busy = True
                kept = self.tokens[i]
                o2 = dict(o)
                self.op = {k: v for k, v in o.items() if k != 'boom'}     # injected inside the solver only
                real_op, self.op_boom = self.op, o2.get('boom')
                if op == 'load':
                    path = sorted(self.saved)[o['r'] % len(self.saved)]
                    x, out = self.solve_call(o2, cls.solve_with, sol, factory, load_path=path)
                    if not x:
                        self.tokens[i] = self.saved[path]
                elif op == 'solve':
                    x, out = self.solve_call(o2, cls.solve_with, sol, factory)
                    if not x:
                        self.tokens[i] = self.token
                else:
                    x, out = self.solve_call(o2, sol.solve, factory)
                    if not x:
                        self.tokens[i] = self.token
                self.busy = False
                if self.v:
                    return
                if x:
                    continue
                if op != 'resolve':
                    if out is not sol:
                        self.fail('not the solver', f'{op}')
                    self.where[i] = j
                self.stats['solves'] += 1
            elif op == 'check':
                j = o['r'] % len(sp['domains'])
                d = sp['domains'][j]
                own = sp['own'][o['r'] % len(sp['own'])]
                dom = self.classes[j](own)
                exp = [c for c, t in zip(solver_cls, sp['solvers'])
                       if compliant(t, d) and (not t['extra'] or own['salt'] % 2 == 0)]
                x, out = self.call(match_solvers, dom, solver_cls)
                if not x and out != exp:
                    self.fail('matching', f'domain {j}: {[solver_cls.index(c) for c in out]} instead of '
                                          f'{[solver_cls.index(c) for c in exp]}')
                if o['r'] % 3 == 0 and not self.v:
                    self.registered(o['r'] // 3, dom, solver_cls, exp)
                for c in solver_cls:
                    x, out = self.call(c.check_domain, dom)
                    if not x and bool(out) != (c in exp):
                        self.fail('matching', f'check_domain says {out}: solver {sp["solvers"][solver_cls.index(c)]} domain {d}')
                        return
            elif op == 'with':
                try:
                    with sol as got:
                        if got is not sol or self.seen != ('initialize', ()):
                            self.fail('context', f'entering: {self.seen}')
                        self.seen = None
                        if o['r'] % 2:
                            raise KeyError('stop')
                    left = None
                except KeyError as e:
                    left = e
                if (left is None) != (o['r'] % 2 == 0):
                    self.fail('context', f'leaving: {left}')
                if self.seen != ('cleanup', ()):
                    self.fail('context', f'leaving: {self.seen}')
            elif self.where[i] is not None:
                self.ask(i, s, {**sp['domains'][self.where[i]]}, sol, op, o['r'])
            if self.v:
                return

    def solve_call(self, o, f, *a, **kw):
        self.seen = None
        self.op = o
        self.arm = None
        try:
            out = f(*a, **kw)
        except E.Boom:
            self.faults['solver code raises while it solves'] += 1
            return True, None
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.fail('raises', f'{o["op"]}: {type(e).__name__}: {e} ({tb.filename.split("/")[-1]}:{tb.name})')
            return True, None
        if o.get('boom') == 0:
            self.fail('swallowed', f'{o["op"]}: a failure of the solver did not reach its caller')
        return False, out

    def saw(self, what, *args):
        if self.seen is None or self.seen[0] != what or E.frz(self.seen[1]) != E.frz(args) or \
                any(type(a) is not type(b) for a, b in zip(self.seen[1], args)):
            self.fail('given', f'{self.op["op"]}: the solver got {self.seen}, expected {(what, args)}')

    def ask(self, i, s, d, sol, op, r):
        b = E.Beh(d)
        st = b.state('any', r % 50)
        o = b.obs(st, None)[0][0]
        up = self.up(s, d, o)
        tok = self.tokens[i]
        key = lambda *x: E.H(s['salt'], tok, E.frz(up), *x)
        if op == 'action':
            if s['policy'] == 'det' and r % 3 == 0:
                x, out = self.call(sol.get_next_action, o)
                poss = [0]
            elif s['policy'] != 'pol' and r % 3 == 1:
                x, out = self.call(sol.get_next_action_distribution, o)
                if not x:
                    exp = [(self.expected(s, d, o, tok), 1.)] if s['policy'] == 'det' else \
                        [(self.expected(s, d, o, tok), .25), (self.expected(s, d, o, tok, 100), .75)]
                    got = out.get_values()
                    if E.frz(got) != E.frz(exp) or out.sample() not in [v for v, _ in exp]:
                        self.fail('answer', f'distribution {got} instead of {exp}')
                    self.saw('ask', up)
                return
            else:
                x, out = self.call(sol.sample_action, o)
                poss = [0, 100] if s['policy'] == 'unc' else [0]
            if not x:
                self.saw('ask', up)
                exp = [self.expected(s, d, o, tok, k) for k in poss]
                if out not in exp:
                    self.fail('answer', f'{out} instead of {exp}')
                self.stats['actions asked'] += 1
        elif op == 'defined':
            x, out = self.call(sol.is_policy_defined_for, o)
            if not x:
                self.saw('defined', up)
                if bool(out) != (key() % 2 == 0):
                    self.fail('answer', f'is_policy_defined_for: {out}')
        elif op == 'value' and s['values']:
            if s['values'] == 'q' and r % 2:
                a = [r % 5, 1] if d['conc'] == 'par' else r % 5
                if d['agent'] == 'multi':
                    a = {g: a for g in o}
                x, out = self.call(sol.get_q_value, o, a)
                ua = self.up_action(s, d, a)
                if not x:
                    self.saw('q', up, ua)
                    if out != key(E.frz(ua), 'q') % 1000:
                        self.fail('answer', f'get_q_value: {out}')
            else:
                x, out = self.call(sol.get_utility, o)
                if not x:
                    self.saw('utility', up)
                    if out != key('u') % 1000:
                        self.fail('answer', f'get_utility: {out}')
        elif op == 'solve_from':
            from skdecide import Memory
            sts = [b.state('any', r + k) for k in range(1 + r % 3)]
            if d['mem'] in ('hist', 'fin'):
                given = Memory(sts)
                exp = Memory(sts)
            else:
                given = sts[0]
                exp = Memory(sts[:1]) if s['mem'] in ('hist', 'fin') else sts[0]
            x, out = self.call(sol.solve_from, given)
            if not x:
                self.saw('solve_from', exp)
        elif op == 'reset':
            x, out = self.call(sol.reset)
            if not x:
                self.saw('reset')
        elif op == 'save':
            path = os.path.join(self.tmp, f's{r % 3}')
            x, out = self.call(sol.save, path)
            if not x:
                self.saw('save')
                self.saved[path] = tok


OPS = ['solve'] * 4 + ['resolve', 'check', 'with', 'reset', 'save', 'load', 'load', 'solve_from', 'solve_from',
                       'defined', 'value', 'value'] + ['action'] * 6


def gen(rng, tier):
    big = tier == 'thorough'
    domains = [E.gen_spec(rng) for _ in range(rng.choice([1, 2, 3, 4]))]
    solvers = []
    for _ in range(rng.choice([1, 2, 3])):
        s = gen_solver(rng, rng.choice(domains) if rng.random() < .85 else None)
        s['par_many'] = rng.random() < .4
        solvers.append(s)
    insts = [rng.randrange(len(solvers)) for _ in range(rng.choice([1, 2, 3]))]
    faulty = rng.random() < .5
    ops = []
    for _ in range(rng.randint(3, 60 if big else 25)):
        o = {'op': rng.choice(OPS), 'i': rng.randrange(6), 'r': rng.randrange(1000)}
        if o['op'] in ('solve', 'load', 'resolve'):
            o['domains'] = rng.choice([0, 1, 1, 2, 3])
            o['same'] = rng.random() < .3
            o['work'] = [{'op': rng.choice(EN.OPS), 'i': 0, 'r': rng.randrange(1000)} for _ in range(rng.choice([0, 2, 5]))]
            for w in o['work']:
                if w['op'] == 'fork':
                    w['op'] = 'step'
                if faulty and rng.random() < .1:
                    w['boom'] = rng.randrange(3)
        if faulty and rng.random() < .15:
            o['boom'] = 0
        ops.append(o)
    own = [{'salt': rng.randrange(1 << 30), 'maxlen': rng.randint(1, 4), 'n_actions': rng.randint(1, 4)} for _ in range(3)]
    return {'own': own, 'seed': rng.randrange(1 << 30), 'domains': domains, 'solvers': solvers, 'insts': insts, 'ops': ops}


class SolverHarness(Harness):
    runs = {'quick': 12000, 'thorough': 300000}
    rule = 'a solver is accepted exactly by compliant domains; it is given, and its callers get, everything in their own form'
    real = ['skdecide.solvers, skdecide.builders.solver (policy, assessability, restorability)',
            'skdecide.domains.Domain.solve_with', 'skdecide.core (autocast)', 'skdecide.utils.match_solvers and registered classes']
    stub = ['the solving itself and the domain functions: generated, every answer a hash of what they were given',
            'the random module: seeded by the simulator']
    assumptions = ['domain functions are deterministic apart from the distributions they return']

    def gen(self, rng, tier):
        return gen(rng, tier)

    def execute(self, spec, record=False):
        r = Run(copy.deepcopy(spec)).execute()
        st = dict(r.stats)
        return Outcome(r.v, st, dict(r.faults), r.h.hexdigest(), st.get('ops', 0), 0., st.get('solves', 0) >= 1 and
                       st.get('ops', 0) >= 3, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops']):
            yield {**spec, 'ops': ops}
        for i, o in enumerate(spec['ops']):
            if o.get('work'):
                yield {**spec, 'ops': spec['ops'][:i] + [{**o, 'work': []}] + spec['ops'][i + 1:]}
            if 'boom' in o:
                yield {**spec, 'ops': spec['ops'][:i] + [{k: v for k, v in o.items() if k != 'boom'}] + spec['ops'][i + 1:]}
            if o.get('same'):
                yield {**spec, 'ops': spec['ops'][:i] + [{**o, 'same': False}] + spec['ops'][i + 1:]}


CHECKS = {'C26': SolverHarness()}
