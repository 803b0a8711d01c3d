exec(open('/verif/tools/plants/_do_base.py').read())
ID = 'c34-instances-renew-everything'
PROP = 'C34'
EDITS = [('skdecide/hub/domain/rcpsp/rcpsp_sk.py', "resource_renewable=srcpsp.get_resource_renewability()\n", "resource_renewable={r: True for r in resource_availability_dict}\n")]
NEEDS = 'a project with uncertain durations and a non-renewable resource'
BREAKS = 'the certain instances made of it give the resource back'
DEMO = PROJECT + '''
d = MRCPSP(resource_names=['r', 'w'], task_ids=[1, 2, 3],
           tasks_mode={t: {1: {'duration': int(t == 2), 'r': int(t == 2), 'w': int(t == 2)}} for t in (1, 2, 3)},
           successors={1: [2, 3], 2: [3], 3: []}, max_horizon=30, resource_availability={'r': 1, 'w': 2}, resource_renewable={'r': True, 'w': False})
for x in build_n_determinist_from_stochastic(build_stochastic_from_deterministic(d), 2):
    expect('renewable', dict(x.get_resource_renewability()), {'r': True, 'w': False})
'''
