exec(open('/verif/tools/plants/_sched_base.py').read())
ID = 'c19-margin-follows-the-clock'
PROP = 'C19'
SG = 'skdecide/hub/solver/sgs_policies/sgs_policies.py'
EDITS = [(SG, '''                                     <= scheduled_time + delta_time_freedom]
''', '''                                     <= max(scheduled_time, obs.t) + delta_time_freedom]
''')]
NEEDS = 'an execution later than planned, with a first ready task that does not fit and another one planned beyond its margin'
BREAKS = 'a late execution starts tasks planned beyond the margin'
POL = """
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod


def policy(d, method, order, times, **kw):
    return PolicyRCPSP(domain=d, policy_method_params=PolicyMethodParams(method, **kw), permutation_task=order,
                       modes_dictionnary={i: 1 for i in order},
                       schedule={i: {'start_time': t, 'end_time': t + 1} for i, t in times.items()})


def told(p, s):
    a = p.get_next_action(s)
    return a.task, a.action.name
"""
DEMO = SCHED + POL + '''
d = make('det', tasks=(1, 2, 3), modes={1: {1: {'r': 1}}, 2: {1: {'r': 2}}, 3: {1: {'r': 1}}},
         dur={(1, 1): [(9, 1.)], (2, 1): [(1, 1.)], (3, 1): [(1, 1.)]})
p = policy(d, BasePolicyMethod.SGS_TIME_FREEDOM, [1, 2, 3], {1: 0, 2: 2, 3: 7}, delta_time_freedom=3)
s = d.reset()
s = d.get_next_state(s, start(1))
for _ in range(6):
    expect('waiting', told(p, s), (None, 'TIME_PR'))
    s = d.get_next_state(s, tick())
'''
