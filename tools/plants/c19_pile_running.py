exec(open('/verif/tools/plants/c19_time_margin.py').read())
ID = 'c19-units-of-the-first-start'
PROP = 'C19'
EDITS = [(SG, '''        if policy_rcpsp.resource_allocation is not None:
            if task in policy_rcpsp.resource_allocation:
                the_action.resource_unit_names = policy_rcpsp.resource_allocation[task]
        action_available = action_in_applicable_actions(policy_rcpsp.domain, state, the_action)
        if action_available[0]:
            return the_action
''', '''        action_available = action_in_applicable_actions(policy_rcpsp.domain, state, the_action)
        if not action_available[0] and policy_rcpsp.resource_allocation is not None:
            if task in policy_rcpsp.resource_allocation:
                the_action.resource_unit_names = policy_rcpsp.resource_allocation[task]
                action_available = action_in_applicable_actions(policy_rcpsp.domain, state, the_action)
        if action_available[0]:
            return the_action
''')]
NEEDS = 'a task with planned units that could also start without them'
BREAKS = 'the ready-list policy does not use the planned units of a task'
DEMO = SCHED + """
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod
d = make('det', tasks=(1,), modes={1: {1: {'r': 1}}}, dur={(1, 1): [(2, 1.)]}, res={'r': 2, 'u': 1})
p = PolicyRCPSP(domain=d, policy_method_params=PolicyMethodParams(BasePolicyMethod.SGS_READY), permutation_task=[1],
                modes_dictionnary={1: 1}, resource_allocation={1: ['u']})
expect('units', p.get_next_action(d.reset()).resource_unit_names, ['u'])
"""
