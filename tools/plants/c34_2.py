exec(open('/verif/tools/plants/_do_base.py').read())
ID = 'c34-policy-with-the-modes-of-the-neighbours'
PROP = 'C34'
EDITS = [('skdecide/hub/solver/do_solver/do_solver_scheduling.py', """        modes_dictionnary[solution.problem.n_jobs + 2] = 1
        for i in range(len(solution.rcpsp_modes)):
            modes_dictionnary[i + 2] = solution.rcpsp_modes[i]
""", """        modes_dictionnary[solution.problem.n_jobs + 2] = 1
        for i in range(len(solution.rcpsp_modes)):
            modes_dictionnary[permutation_task[i + 1]] = solution.rcpsp_modes[i]
""")]
NEEDS = 'tasks with several modes, scheduled in another order than that of their numbers'
BREAKS = 'the policy starts tasks in modes chosen for other tasks; the schedule executed is not the one found'
DEMO = PROJECT + '''
d = MRCPSP(resource_names=['r'], task_ids=[1, 2, 3, 4],
           tasks_mode={1: {1: {'duration': 0, 'r': 0}}, 2: {1: {'duration': 5, 'r': 1}, 2: {'duration': 2, 'r': 1}},
                       3: {1: {'duration': 1, 'r': 1}, 2: {'duration': 4, 'r': 1}}, 4: {1: {'duration': 0, 'r': 0}}},
           successors={1: [2, 3, 4], 3: [2, 4], 2: [4], 4: []}, max_horizon=30, resource_availability={'r': 1}, resource_renewable={'r': True})
Modes.chosen = [1, 2, 1, 1]
with contextlib.redirect_stdout(io.StringIO()):
    s = dos.DOSolver(PolicyMethodParams(BasePolicyMethod.SGS_READY, delta_time_freedom=0, delta_index_freedom=0), method=dos.SolvingMethod.PILE)
    s.solve(lambda: d)
    obs = d.reset()
    for _ in range(100):
        if d.is_terminal(obs):
            break
        obs = d.step(s.sample_action(obs)).observation
expect('modes executed', dict(obs.tasks_mode), {1: 1, 2: 2, 3: 1, 4: 1})
'''
