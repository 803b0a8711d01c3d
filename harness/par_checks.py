import copy

from harness import parallel as P, par_gen as G
from harness.common import Harness, Outcome, drop_each


class ParHarness(Harness):
    retries = 12
    real = ['skdecide.domains.ParallelDomain / PipeParallelDomain / ShmParallelDomain and both worker loops '
            '(_launch_domain_server_, _shm_launch_domain_server_), run unmodified',
            'skdecide.builders.solver.parallelability.ParallelSolver (C08)', 'dill serialisation', 'tempfile']
    stub = ['multiprocessing (processes, pipes, manager proxies, shared ctypes, conditions, locks): sim/simmp.py',
            'nng push sockets: sim/simmp.SimPush0', 'OS scheduler and clock: sim/kernel.py',
            'the C++ consumer of notifications: a simulated puller', 'the domain: harness/ptypes.SimDomain']
    assumptions = ['a worker does not share mutable Python objects with its parent (process isolation is modelled by '
                   'copying arguments at fork and pickling pipe and manager traffic)',
                   'each primitive multiprocessing operation is atomic; interleavings are explored between them',
                   'workers are launched by one caller before requests are issued concurrently']

    def __init__(self, gen, runs, rule):
        self._gen = gen
        self.runs = runs
        self.rule = rule

    def gen(self, rng, tier):
        return self._gen(rng, tier)

    def execute(self, spec, record=False):
        spec = copy.deepcopy(spec)
        r = P.Run(spec, record).execute()
        k = r.k
        vs = r.violations
        # a caller that died of an exception starves others of its slot: report the cause, not the knock-on hang
        if any(v[0] == 'api-exception' for v in vs):
            vs = [v for v in vs if v[0] != 'hang'] 
        nontrivial = r.stats.get('requests', 0) >= 2 and k.switches >= 4
        st = dict(r.stats)
        st['context switches'] = k.switches
        return Outcome(vs, st, dict(k.faults), k.fingerprint(), k.steps, k.now, nontrivial, k.chooser.trace, k.log)

    def shrink(self, spec):
        s = spec
        s = {k: v for k, v in s.items() if k != 'trace'}
        for key, val in (('spurious', None), ('jumps', None), ('pending', None), ('stalls', None), ('slow_start', None), ('notify', False),
                         ('double_close', False), ('exit_exception', False)):
            if s.get(key):
                c = copy.deepcopy(s)
                if val is None:
                    c.pop(key)
                else:
                    c[key] = val
                yield c
        for key in ('crash', 'factory_crash', 'factory_fail'):
            if s.get(key):
                for sub in drop_each(s[key]):
                    c = copy.deepcopy(s)
                    c[key] = sub
                    yield c
        rounds = s.get('rounds')
        if rounds:
            for sub in drop_each(rounds, 1):
                c = copy.deepcopy(s)
                c['rounds'] = copy.deepcopy(sub)
                yield c
        groups = rounds if rounds else [s['clients']]

        def with_group(gi, new):
            c = copy.deepcopy(s)
            if rounds:
                c['rounds'][gi] = copy.deepcopy(new)
            else:
                c['clients'] = copy.deepcopy(new)
            return c
        for gi, g in enumerate(groups):
            if len(g) > 1:
                for sub in drop_each(g, 1):
                    yield with_group(gi, sub)
            for ci, cl in enumerate(g):
                for sub in drop_each(cl['ops']):
                    new = copy.deepcopy(g)
                    new[ci]['ops'] = sub
                    yield with_group(gi, new)
                for oi, op in enumerate(cl['ops']):
                    if op['op'] == 'req' and op['args'] and op['via'] != 'wrapper':
                        new = copy.deepcopy(g)
                        new[ci]['ops'][oi]['args'] = op['args'][:-1]
                        yield with_group(gi, new)
        if s['start'] == 'lazy':
            c = copy.deepcopy(s)
            c['start'] = 'explicit'
            yield c
        used = {x for g in groups for cl in g for x in (cl.get('own') or [])}
        if s['slots'] > 1 and s['slots'] - 1 not in used and not s.get('crash'):
            if sum(cl.get('batch', 1) for g in groups for cl in g) <= s['slots'] - 1 or \
                    all(cl.get('batch', 1) == 1 for g in groups for cl in g):
                c = copy.deepcopy(s)
                c['slots'] -= 1
                yield c


R = 'One run = one generated workload (callers, slots, transport, registers, methods, arguments), one fault plan and ' \
    'one seeded schedule of callers and workers. '

CHECKS = {
    'C01': ParHarness(G.gen_exclusive, {'quick': 6000, 'thorough': 150000},
                      R + 'Callers compete for automatically chosen slots. Non-trivial: at least two requests and four '
                          'context switches between callers and workers.'),
    'C02': ParHarness(G.gen_transparent, {'quick': 6000, 'thorough': 150000},
                      R + 'No failing requests. Non-trivial: at least two requests and four context switches.'),
    'C03': ParHarness(G.gen_failing, {'quick': 6000, 'thorough': 150000},
                      R + 'A drawn share of requests raises, cannot be transmitted or cannot be answered. Non-trivial: '
                          'at least two requests and four context switches.'),
    'C04': ParHarness(G.gen_shm, {'quick': 5000, 'thorough': 120000},
                      R + 'Shared-memory transport with single- and multi-cell registers, several values of one type. '
                          'Non-trivial: at least two requests and four context switches.'),
    'C05': ParHarness(G.gen_close, {'quick': 6000, 'thorough': 150000},
                      R + 'Shutdown with idle, busy, failed and unclaimed slots, then use again. Non-trivial: at least '
                          'two requests and four context switches.'),
    'C06': ParHarness(G.gen_crash, {'quick': 6000, 'thorough': 150000},
                      R + 'Workers die in domain code or at start-up. Non-trivial: at least two requests and four '
                          'context switches.'),
    'C07': ParHarness(G.gen_notify, {'quick': 6000, 'thorough': 150000},
                      R + 'Notifications on, consumer waits for them. Non-trivial: at least two requests and four '
                          'context switches.'),
    'C08': ParHarness(G.gen_solver, {'quick': 6000, 'thorough': 150000},
                      R + 'Requests through the solver helper, sequential and parallel. Non-trivial: at least two '
                          'requests and four context switches.'),
}
