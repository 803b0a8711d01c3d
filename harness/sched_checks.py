import copy

from harness import sched as S
from harness.common import Harness, Outcome, drop_each


class SchedHarness(Harness):
    retries = 1
    runs = {'quick': 10000, 'thorough': 250000}
    real = ['skdecide.builders.scheduling (SchedulingDomain, DeterministicSchedulingDomain, UncertainSchedulingDomain, '
            'the predefined RCPSP classes, State, SchedulingAction, Task, modes, skills, conditional tasks, '
            'preemptivity, calendars, action spaces), run unmodified',
            'skdecide.builders.domain stepping, initialisation and memory', 'skdecide.core distributions']
    stub = ['the problem data (tasks, modes, durations, calendars, skills, conditions): generated',
            'the random module: seeded by the simulator before every call',
            'time: the domain\'s own discrete time, advanced by the simulator\'s TIME_PR actions',
            'the solver choosing actions: the seeded scheduler of the simulator']
    assumptions = ['durations are integers and task progress is DeterministicTaskProgress',
                   'varying consumptions are used with renewable resources only',
                   'tasks that wait for a conditional task also wait for the tasks that decide its existence']

    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule

    def gen(self, rng, tier):
        return S.gen(rng, tier, self.prop)

    def execute(self, spec, record=False):
        r = S.Run(copy.deepcopy(spec)).execute()
        vs = [(c, d) for c, d, props in r.violations if self.prop in props]
        st = dict(r.stats)
        nontrivial = st.get('transitions', 0) >= 3 and st.get('start actions', 0) >= 1
        sim = max([0] + [n[2]['t'] for n in r.nodes])
        return Outcome(vs, st, dict(r.faults), r.h.hexdigest(), st.get('transitions', 0), float(sim), nontrivial,
                       None, r.log)

    def shrink(self, spec):
        for ops in drop_each(spec['ops']):
            yield {**spec, 'ops': ops}
        for i, t in enumerate(spec['tasks']):
            if len(spec['tasks']) > 1:
                c = copy.deepcopy(spec)
                gone = c['tasks'].pop(i)['id']
                for u in c['tasks']:
                    u['succ'] = [x for x in u['succ'] if x != gone]
                yield c
            for j in range(len(t['succ'])):
                c = copy.deepcopy(spec)
                c['tasks'][i]['succ'].pop(j)
                yield c
            if len(t['modes']) > 1:
                for j in range(len(t['modes'])):
                    c = copy.deepcopy(spec)
                    c['tasks'][i]['modes'].pop(j)
                    yield c
            if t.get('exist') is not None:
                c = copy.deepcopy(spec)
                c['tasks'][i].pop('exist')
                yield c
            if t.get('compl'):
                c = copy.deepcopy(spec)
                c['tasks'][i].pop('compl')
                yield c
        for i, d in enumerate(spec['res']):
            if d.get('cal'):
                c = copy.deepcopy(spec)
                c['res'][i].pop('cal')
                if not c.get('cls'):
                    yield c
        for i, o in enumerate(spec['ops']):
            for k in ('tp', 'nomode', 'value'):
                if o.get(k):
                    c = copy.deepcopy(spec)
                    c['ops'][i].pop(k)
                    yield c
            if o.get('r'):
                c = copy.deepcopy(spec)
                c['ops'][i]['r'] = o['r'] // 2
                yield c


CHECKS = {
    'C09': SchedHarness('C09', 'resources used, available and held by each task equal the reference after every '
                               'transition; a start or resume that does not fit changes nothing'),
    'C10': SchedHarness('C10', 'time, starts, ends, progress, modes and transition costs equal the reference'),
    'C11': SchedHarness('C11', 'task phases, goal, terminal and offered actions equal the reference; the project '
                               'completes within a bounded number of steps once capacity is back'),
    'C12': SchedHarness('C12', 'every state of a run with pauses equals the reference'),
    'C13': SchedHarness('C13', 'the outcomes of every transition and their probabilities equal the reference'),
    'C14': SchedHarness('C14', 'no state returned earlier changes; equality and hash follow content; commuting '
                               'actions commute; a reset gives the initial state'),
    'C15': SchedHarness('C15', 'conditions, existing tasks and goal of every outcome equal the reference'),
}
