"""Planners from Python: the wrappers of the C++ planners over a simulated extension module, in histories where they are solved, asked,
reset, entered, left and reused, with simulated parallel domains and failing domains, functions and planners."""
import contextlib
import enum
import io
import math
import os
import random
import re
import sys
import types
from importlib import import_module as im

from harness.common import Harness, Outcome, drop_each
from harness.local import Base, Boom, hsh

BUDGETS = {'time_budget': 3600000, 'rollout_budget': 100000, 'max_depth': 1000}
ENUMS = {'TransitionMode': ['Step', 'Sample', 'Distribution'], 'TreePolicy': ['Default'], 'Expander': ['Full', 'Partial'],
         'ActionSelector': ['UCB1', 'BestQValue'], 'RolloutPolicy': ['Random', 'Custom'], 'BackPropagator': ['Graph']}
CHOICES = {'transition_mode': 'TransitionMode.Distribution', 'tree_policy': 'TreePolicy.Default', 'expander': 'Expander.Full',
           'action_selector_optimization': 'ActionSelector.UCB1', 'action_selector_execution': 'ActionSelector.BestQValue',
           'rollout_policy': 'RolloutPolicy.Random', 'back_propagator': 'BackPropagator.Graph'}
# module, class, options with their defaults, functions of the user {name: default}, callbacks of the planner, how it plans
WRAPPERS = {
    'astar': ('astar', 'Astar', {}, {'heuristic': 0}, ['goal_checker', 'heuristic'], 'once'),
    'aostar': ('aostar', 'AOstar', {'discount': 1.0, 'max_tip_expansions': 1, 'detect_cycles': False}, {'heuristic': 0},
               ['goal_checker', 'heuristic'], 'once'),
    'ilaostar': ('ilaostar', 'ILAOstar', {'discount': 1.0, 'epsilon': 0.001}, {'heuristic': 0}, ['goal_checker', 'heuristic'], 'once'),
    'lrtdp': ('lrtdp', 'LRTDP', {'use_labels': True, **BUDGETS, 'discount': 1.0, 'epsilon': 0.001, 'online_node_garbage': False},
              {'heuristic': 0}, ['goal_checker', 'heuristic'], 'again'),
    'iw': ('iw', 'IW', {'use_state_feature_hash': False, 'time_budget': 0, 'node_ordering': None}, {'state_features': 'must'},
           ['state_features'], 'once'),
    'riw': ('riw', 'RIW', {'use_state_feature_hash': False, 'use_simulation_domain': False, **BUDGETS, 'exploration': 0.25, 'discount': 1.0,
                           'online_node_garbage': False}, {'state_features': 'must'}, ['state_features'], 'again'),
    'bfws': ('bfws', 'BFWS', {}, {'state_features': 'must', 'heuristic': 0, 'termination_checker': 'must'},
             ['state_features', 'heuristic', 'termination_checker'], 'once'),
    'mcts': ('mcts', 'MCTS', {**BUDGETS, 'discount': 1.0, 'uct_mode': True, 'ucb_constant': 1 / math.sqrt(2), 'online_node_garbage': False, **CHOICES},
             {'custom_policy': None, 'heuristic': None}, ['custom_policy', 'heuristic'], 'again'),
    'uct': ('mcts', 'UCT', {**BUDGETS, 'discount': 1.0, 'ucb_constant': 1 / math.sqrt(2), 'online_node_garbage': False,
                            'transition_mode': 'TransitionMode.Distribution', 'rollout_policy': 'RolloutPolicy.Random'},
            {'custom_policy': None, 'heuristic': None}, ['custom_policy', 'heuristic'], 'again'),
}
PLANNER = {'astar': '_AStarSolver_', 'aostar': '_AOStarSolver_', 'ilaostar': '_ILAOStarSolver_', 'lrtdp': '_LRTDPSolver_', 'iw': '_IWSolver_',
           'riw': '_RIWSolver_', 'bfws': '_BFWSSolver_', 'mcts': '_MCTSSolver_'}
RESETS = ('iw', 'riw', 'mcts', 'uct')
THREADS = ('lrtdp', 'riw', 'mcts', 'uct')
ASKED = ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix', 'get_intermediate_scores',
         'best_solution_graph_size']
MAY = {'ilaostar': ['get_nb_of_explored_states', 'best_solution_graph_size', 'get_policy'],
       'lrtdp': ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy'],
       'iw': ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_intermediate_scores'],
       'riw': ['get_nb_of_explored_states', 'get_nb_of_pruned_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix'],
       'mcts': ['get_nb_of_explored_states', 'get_nb_rollouts', 'get_policy', 'get_action_prefix']}
MAY['uct'] = MAY['mcts']
NOW = [None]   # the run under way


def binding(module):
    """arguments of the constructor (True: must be given) and methods of a planner, as its C++ binding declares them"""
    import skdecide
    p = os.path.join(os.path.dirname(skdecide.__file__), '..', 'cpp', 'src', 'hub', 'solver', f'py_{module}.cc')
    try:
        s = open(p).read()
    except OSError:
        return None
    k = s.find('py::init<')
    m = re.search(r'\.def\(\s*"', s[k:]) if k >= 0 else None
    if not m:
        return None
    args = {a: not d.strip() for a, d in re.findall(r'py::arg\("(\w+)"\)\s*(=?)', s[k:k + m.start()])}
    return (args, set(re.findall(r'\.def\(\s*"(\w+)"', s[k:]))) if args else None


def make_planner(module):
    known = binding(module)

    class Planner:
        def __init__(self, **kw):
            run = NOW[0]
            if known is not None:
                bad = set(kw) - set(known[0])
                if bad or any(must and a not in kw for a, must in known[0].items()):
                    raise TypeError(f'incompatible constructor arguments: {sorted(kw)}')
            self.kw, self.no, self.cleared = kw, len(run.planners), 0
            run.event('planner', module)
            run.planners.append(self)
            self.defined, self.count = set(), 0

        def __getattribute__(self, name):
            if known is not None and not name.startswith('_') and name in METHODS and name not in known[1]:
                raise AttributeError(name)
            return object.__getattribute__(self, name)

        def clear(self):
            NOW[0].event('clear', self.no)
            self.defined, self.count, self.cleared = set(), 0, self.cleared + 1

        def solve(self, state):
            NOW[0].solving(self, state)

        def is_solution_defined_for(self, state):
            NOW[0].event('defined', self.no, state)
            return state in self.defined

        def get_next_action(self, state):
            NOW[0].event('action', self.no, state)
            return NOW[0].answer(self, state)

        def get_utility(self, state):
            NOW[0].event('utility', self.no, state)
            return hsh('utility', self.no, state, self.count) % 100 / 4
    for f in ASKED:
        def ask(self, f=f):
            NOW[0].event(f, self.no)
            return (f, self.no, self.count)
        setattr(Planner, f, ask)
    METHODS = set(ASKED) | {'clear', 'solve', 'is_solution_defined_for', 'get_next_action', 'get_utility'}
    return Planner


def extension():
    """the simulated extension module, in place of the C++ one"""
    if getattr(sys.modules.get('__skdecide_hub_cpp'), 'simulated', False):
        return
    m = types.ModuleType('__skdecide_hub_cpp')
    m.simulated = True
    for module, name in PLANNER.items():
        setattr(m, name, make_planner(module))
    m._MCTSOptions_ = type('_MCTSOptions_', (), {k: enum.Enum(k, v) for k, v in ENUMS.items()})
    sys.modules['__skdecide_hub_cpp'] = m


class Parallel:
    """a parallel domain whose processes are simulated: jobs are done when the simulator wants"""
    def __init__(self, factory, *proxy, lambdas=None, ipc_notify=False, **kw):
        run = NOW[0]
        self._run, self._lambdas, self._open, self._jobs, self._n = run, list(lambdas or []), False, {}, 2 + run.spec['salt'] % 3
        self._proxy, self._dom = proxy, factory()
        run.parallels.append(self)
        if not ipc_notify:
            run.fail('no notification', 'the planner would wait for ever')

    def _launch_processes(self):
        self._run.event('launch')
        self._open = True

    def close(self):
        self._run.event('close')
        self._open = False

    def launch(self, i, name, *args):
        if not self._open:
            self._run.fail('closed domain used', f'{name}')
        p = hsh(self._run.spec['salt'], len(self._run.jobs)) % self._n if i is None else i
        self._run.jobs.append(name)

        def job():
            return getattr(self._dom, name)(*args) if isinstance(name, str) else self._lambdas[name](self._dom, *args)
        self._jobs[p] = ('done', job()) if hsh(self._run.spec['salt'], 'when', len(self._run.jobs)) % 2 else ('todo', job)
        return p

    def get_result(self, p):
        how, x = self._jobs.pop(p)
        return x if how == 'done' else x()

    def call(self, i, lambda_id, *args):
        return self.launch(i, lambda_id, *args)

    def is_goal(self, observation, i=None):
        return self.launch(i, 'is_goal', observation)

    def nb_domains(self):
        return self._n

    get_parallel_capacity = nb_domains

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *args, i=None: self.launch(i, name, *args)


class WrapRun(Base):
    def go(self):
        sp = self.spec
        extension()
        NOW[0] = self
        self.planners, self.parallels, self.jobs, self.solves, self.tag = [], [], [], [], None
        self.asked = 0
        par = im('skdecide.builders.solver.parallelability')
        was = par.PipeParallelDomain, par.ShmParallelDomain
        par.PipeParallelDomain = par.ShmParallelDomain = Parallel
        random.seed(sp['salt'])
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.ExitStack() as self.stack:
                self.play()
        finally:
            par.PipeParallelDomain, par.ShmParallelDomain = was
            NOW[0] = None

    def domain(self, tag):
        sk = im('skdecide')
        spaces = im('skdecide.hub.space.gym')
        run, sp = self, self.spec

        class Dom(sk.DeterministicPlanningDomain):
            T_state, T_observation, T_event, T_value, T_info = int, int, str, float, None

            def __init__(self):
                run.event('domain', tag)
                self.tag = tag

            def _get_next_state(self, memory, action):
                return (memory + ord(action)) % 9

            def _get_transition_value(self, memory, action, next_state=None):
                return sk.TransitionValue(cost=1)

            def _is_terminal(self, state):
                return run.truth('goal_checker', tag, state)

            def _get_action_space_(self):
                return spaces.ListSpace(run.actions(tag))

            def _get_applicable_actions_from(self, memory):
                run.event('applicable', tag, memory)
                return spaces.ListSpace(run.actions(tag))

            def _get_goals_(self):
                return sk.ImplicitSpace(lambda o: run.event('goal', tag, o) or run.truth('goal_checker', tag, o))

            def _get_initial_state_(self):
                return 0

            def _get_observation_space_(self):
                return sk.ImplicitSpace(lambda o: True)
        return Dom

    def actions(self, tag):
        return [f'{c}{tag}' if 0 else chr(97 + 3 * (tag % 8) + i) for i, c in enumerate('xyz')]

    def truth(self, f, tag, s):
        sp = self.spec
        if f == 'goal_checker':
            return hsh(sp['salt'], 'goal', tag, s) % 3 == 0
        if f not in sp['given']:
            return 0
        x = hsh(sp['salt'], f, tag, s)
        return {'heuristic': (x % 7 / 2, x % 5) if sp['what'] in ('mcts', 'uct') else x % 7 / 2, 'state_features': (x % 3, x % 5),
                'termination_checker': x % 2 == 0, 'custom_policy': self.actions(tag)[x % 3]}[f]

    def user(self, f):
        def call(d, s):
            self.event(f, d.tag, s)
            return self.truth(f, d.tag, s)
        return call

    # -- the planner's side
    def solving(self, planner, state):
        sp = self.spec
        self.event('solve', planner.no, state)
        self.solves.append((planner.no, state))
        parallel = sp['parallel']
        dom = planner.kw['domain']
        if parallel != isinstance(dom, Parallel):
            return self.fail('domain of the planner', f'{type(dom).__name__}, parallel: {parallel}')
        tag = (dom._dom if parallel else dom).tag
        if tag not in planner.tags:
            return self.fail('domain of the planner', f'of solve {tag} instead of {planner.tags}')
        if parallel and not dom._open:
            return self.fail('closed domain used', 'by the planner')
        for k in range(1 + hsh(sp['salt'], 'more', len(self.solves)) % 3):
            s = state if k == 0 else hsh(sp['salt'], 'visit', len(self.solves), k) % 9
            for name in WRAPPERS[sp['what']][4]:
                cb = planner.kw[name]
                if name in ('custom_policy', 'heuristic') and sp['what'] in ('mcts', 'uct') and name not in sp['given']:
                    if cb is not None:
                        return self.fail('functions of the planner', f'{name} is {cb}')
                    continue
                h = hsh(sp['salt'], 'thread', len(self.solves), k, name)
                if sp['what'] in THREADS and h % 2:
                    i = (h >> 3) % dom._n if parallel and h % 4 == 1 else None
                    r = cb(dom, s, i)
                    if parallel and i is not None and r != i:
                        return self.fail('job of another process', f'{name}: {r} instead of {i}')
                else:
                    r = cb(dom, s)
                if parallel:
                    r = dom.get_result(r)
                if r != self.truth(name, tag, s) or (name in ('goal_checker', 'termination_checker') and bool(r) is not self.truth(name, tag, s)):
                    return self.fail('functions of the planner', f'{name} of {s}: {r}, expected {self.truth(name, tag, s)}')
                self.stats['functions called by planners'] += 1
            if hsh(sp['salt'], 'defines', state, s) % 4:
                planner.defined.add(s)
        planner.count += 1

    def answer(self, planner, state):
        """the planner's action, or none"""
        if state not in planner.defined or hsh(self.spec['salt'], 'none', state, planner.count) % 4 == 0:
            return None
        return self.actions(planner.tags[0])[hsh(self.spec['salt'], 'act', state, planner.count) % 3]

    # -- the user's side
    def make(self):
        sp = self.spec
        module, cls, options, functions, _, how = WRAPPERS[sp['what']]
        mod = im(f'skdecide.hub.solver.{module}.{module}')
        ext = sys.modules['__skdecide_hub_cpp']

        def real(v):
            if isinstance(v, str):
                a, b = v.split('.')
                return getattr(getattr(ext._MCTSOptions_, a), b)
            return v
        kw = {('max_tip_expanions' if k == 'max_tip_expansions' else k): real(v) for k, v in sp['options'].items()}
        order = lambda *a: a[0] < a[3]
        if kw.get('node_ordering'):
            kw['node_ordering'] = order
        for f in sp['given']:
            kw[f] = self.user(f)
        if sp['what'] == 'bfws':
            kw.setdefault('heuristic', None)
        for f in ('parallel', 'debug_logs'):
            if sp[f]:
                kw[f] = True
        if sp['proxy']:
            kw['shared_memory_proxy'] = self.proxy = object()
        if how == 'again' and sp['continuous'] is not None:
            kw['continuous_planning'] = sp['continuous']
        if sp['what'] in ('astar', 'lrtdp') and not sp['factory']:
            pass
        else:
            kw['domain_factory'] = self.domain(0)
        self.wanted = {**{k: real(v) for k, v in options.items()}, **{k: real(v) for k, v in sp['options'].items()}}
        if self.wanted.get('node_ordering'):
            self.wanted['node_ordering'] = order
        if sp['what'] == 'uct':
            self.wanted['uct_mode'] = True
        self.wanted.update(parallel=sp['parallel'], debug_logs=sp['debug_logs'])
        return getattr(mod, cls)(**kw)

    def armed(self, op, f):
        self.arm = op.get('boom')
        try:
            r = f()
        except Boom:
            self.faults['failure'] += 1
            self.event('failed')
            return None
        if 'boom' in op and self.arm is None:
            self.fail('fault swallowed', op['do'])
            return None
        self.arm = None
        return [r]

    def play(self):
        sp = self.spec
        how = WRAPPERS[sp['what']][5]
        continuous = how == 'again' and sp['continuous'] is not False
        solver = self.make()
        inside, solved, broken, tried = False, 0, False, []
        for self.n, op in enumerate(sp['ops']):
            do = op['do']
            current = self.planners[-1] if solved and not broken else None
            s = op['s'] % 9
            before = len(self.solves)
            try:
                if do == 'enter' and not inside:
                    inside = True
                    if self.armed(op, solver.__enter__) is None:
                        inside = False
                        if sp['parallel']:
                            return
                elif do == 'leave' and inside:
                    if self.armed({'do': do}, lambda: solver.__exit__(None, None, None)) is None:
                        return
                    inside = False
                    if self.leaks(0):
                        return
                    broken = broken or sp['parallel']
                elif do == 'solve':
                    # the first domain is the one the solver was made for
                    tag = solved and len(self.planners) + solved
                    known = len(self.planners)
                    tried.append(tag)
                    solved += 1
                    dom = self.domain(tag)
                    check = dom.__name__ and self.armed({'do': 'check'}, lambda: type(solver).check_domain(dom()))
                    if check is not None and not check[0]:
                        return self.fail('domain refused', '')
                    r = self.armed(op, lambda: dom.solve_with(solver, dom) if op['s'] % 2 else solver.solve(dom))
                    if self.v:
                        return
                    if r is None:
                        broken = True
                        if not sp['parallel']:
                            continue
                        return
                    if len(self.planners) != known + 1:
                        return self.fail('planners made', f'{len(self.planners) - known} by one solve')
                    p, broken = self.planners[-1], False
                    dom = p.kw['domain']
                    at = (dom._dom if isinstance(dom, Parallel) else dom).tag
                    # after a first solve which failed, the domain it made may still be there
                    if at != tag and (known or at not in tried):
                        return self.fail('domain of the planner', f'of solve {at} instead of {tag}')
                    p.tags = (at,)
                    if self.given(p) or self.leaks(1):
                        return
                    self.stats['solves'] += 1
                elif current is None:
                    continue
                elif do == 'from':
                    r = self.armed(op, lambda: solver.solve_from(s))
                    if r is not None and self.solves[before:] != [(current.no, s)]:
                        return self.fail('solves of the planner', f'{self.solves[before:]} for state {s}')
                elif do == 'act':
                    had = s in current.defined
                    r = self.armed(op, lambda: solver.get_next_action(s))
                    if self.v or r is None:
                        continue
                    want = [(current.no, s)] if continuous or not had else []
                    if self.solves[before:] != want:
                        return self.fail('solves of the planner', f'{self.solves[before:]} for state {s}, expected {want} (continuous: {continuous})')
                    a = self.answer(current, s)
                    if a is None and how == 'again':
                        self.stats['random actions'] += 1
                        if r[0] not in self.actions(current.tags[0]):
                            return self.fail('random action', f'{r[0]!r}')
                    elif r[0] != a:
                        return self.fail('action', f'{r[0]!r} in {s}, the planner says {a!r}')
                    self.stats['actions'] += 1
                elif do == 'defined':
                    r = self.armed(op, lambda: solver.is_solution_defined_for(s) if hasattr(solver, 'is_solution_defined_for')
                                   else solver._is_solution_defined_for(s))
                    if r is not None and bool(r[0]) != (s in current.defined):
                        return self.fail('solution defined', f'{r[0]} for {s}')
                elif do == 'utility':
                    r = self.armed(op, lambda: solver.get_utility(s))
                    if r is not None and r[0] != hsh('utility', current.no, s, current.count) % 100 / 4:
                        return self.fail('utility', f'{r[0]} of {s}')
                elif do == 'reset':
                    had, count = set(current.defined), current.count
                    r = self.armed(op, solver.reset)
                    if r is not None and (current.defined, current.count) != ((set(), 0) if sp['what'] in RESETS else (had, count)):
                        return self.fail('reset', f'{sorted(had)} became {sorted(current.defined)}')
                elif do == 'ask' and sp['what'] in MAY:
                    f = MAY[sp['what']][op['s'] % len(MAY[sp['what']])]
                    r = self.armed(op, getattr(solver, f))
                    if r is not None and r[0] != (f, current.no, current.count):
                        return self.fail('answers of the planner', f'{f}: {r[0]}')
                if do in ('defined', 'utility', 'reset', 'ask') and self.solves[before:]:
                    return self.fail('solves of the planner', f'{self.solves[before:]} for {do}')
            except Boom:
                self.fail('raises', 'Boom out of time')
            except Exception as e:
                self.crash(do, e)
            if self.v:
                return
        if inside:
            solver.__exit__(None, None, None)
            self.leaks(0)

    def leaks(self, n):
        """no more than n parallel domains are open"""
        still = [p for p in self.parallels if p._open]
        if len(still) > n:
            self.fail('processes left running', f'{len(still)} parallel domains')
        return bool(self.v)

    def given(self, p):
        sp = self.spec
        if p.cleared < 1:
            self.fail('planner not cleared', '')
        for k, v in self.wanted.items():
            if k not in p.kw or p.kw[k] != v or type(p.kw[k]) is not type(v):
                self.fail('options of the planner', f'{k} is {p.kw.get(k)!r}, the user said {v!r}')
        for name in WRAPPERS[sp['what']][4]:
            if name not in p.kw:
                self.fail('functions of the planner', f'{name} is not given')
        dom = p.kw['domain']
        if sp['parallel'] and isinstance(dom, Parallel) and bool(dom._proxy) != sp['proxy'] or \
                (sp['proxy'] and sp['parallel'] and dom._proxy != (self.proxy,)):
            self.fail('shared memory', f'{dom._proxy}')
        return bool(self.v)


class Wrap(Harness):
    runs = {'quick': 40000, 'thorough': 400000}
    real = ['wrappers A*, AO*, ILAO*, LRTDP, IW, RIW, BFWS, MCTS and UCT; parallel solvers; solver and domain base classes; '
            'names and arguments of the C++ bindings (read from their sources)']
    stub = ['C++ planners (simulated; the real ones are checked in C20 to C25)', 'parallel domains (simulated processes; the real ones are checked in C01 to C08)',
            'domains and functions of the user (simulated)']

    def gen(self, rng, tier):
        what = rng.choice(sorted(WRAPPERS))
        module, cls, options, functions, _, how = WRAPPERS[what]
        sp = {'what': what, 'salt': rng.randrange(1 << 30), 'options': {}, 'debug_logs': rng.random() < .2, 'parallel': rng.random() < .5,
              'proxy': False, 'continuous': rng.choice([None, True, False, False]), 'factory': rng.random() < .6}
        sp['proxy'] = rng.random() < .3
        for k, v in options.items():
            if rng.random() < .5:
                if isinstance(v, str):
                    sp['options'][k] = v.split('.')[0] + '.' + rng.choice(ENUMS[v.split('.')[0]])
                elif v is None:
                    sp['options'][k] = True
                elif isinstance(v, bool):
                    sp['options'][k] = not v
                elif isinstance(v, int):
                    sp['options'][k] = rng.choice([0, 1, 7, 100])
                else:
                    sp['options'][k] = rng.choice([.0, .5, .9, 2.])
        sp['given'] = [f for f, d in functions.items() if d == 'must' or rng.random() < .7]
        ops = [{'do': 'enter', 's': 0}] if rng.random() < .7 else []
        ops.append({'do': 'solve', 's': rng.randrange(2)})
        for _ in range(rng.choice([1, 3, 6, 10, 16])):
            ops.append({'do': rng.choice(['act'] * 5 + ['from', 'defined', 'utility', 'reset', 'ask', 'ask'] + ['solve', 'leave', 'enter'] * (rng.random() < .4)),
                        's': rng.randrange(9)})
        for op in ops:
            if rng.random() < .07:
                op['boom'] = rng.choice([0, 1, 2, 4])
        sp['ops'] = ops
        return sp

    def execute(self, spec, record=False):
        r = WrapRun(spec, record)
        r.go()
        return Outcome(r.v, dict(r.stats), dict(r.faults), r.h.hexdigest(), r.steps, r.now, sum(r.stats.values()) > 0, None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops'], 1):
            yield {**spec, 'ops': ops}
        for k, op in enumerate(spec['ops']):
            if 'boom' in op:
                yield {**spec, 'ops': spec['ops'][:k] + [{x: v for x, v in op.items() if x != 'boom'}] + spec['ops'][k + 1:]}
        for k in spec['options']:
            yield {**spec, 'options': {x: v for x, v in spec['options'].items() if x != k}}
        for f in ('debug_logs', 'parallel', 'proxy'):
            if spec[f]:
                yield {**spec, f: False}


CHECKS = {'C40': Wrap()}
