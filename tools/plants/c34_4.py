exec(open('/verif/tools/plants/_do_base.py').read())
ID = 'c34-reports-modes-in-another-order'
PROP = 'C34'
EDITS = [('skdecide/hub/solver/do_solver/sk_to_do_binding.py', "    modes = [state.tasks_mode.get(j, 1) for j in sorted(domain.get_tasks_ids()) ]\n", "    modes = [state.tasks_mode[j] for j in sorted(state.tasks_mode, key=str)]\n")]
NEEDS = 'a project with at least eight tasks with modes'
BREAKS = 'the solution made of an execution gives tasks the modes of others'
DEMO = PROJECT + '''
n = 10
d = MRCPSP(resource_names=['r'], task_ids=list(range(1, n + 3)),
           tasks_mode={t: {1: {'duration': int(1 < t < n + 2), 'r': 0}, **({2: {'duration': 2, 'r': 0}} if 1 < t < n + 2 else {})} for t in range(1, n + 3)},
           successors={t: [n + 2] if t < n + 2 else [] for t in range(1, n + 3)}, max_horizon=60, resource_availability={'r': 1}, resource_renewable={'r': True})
Modes.chosen = [1] + [1 + (t % 3 == 0) for t in range(2, n + 2)] + [1]
with contextlib.redirect_stdout(io.StringIO()):
    s = dos.DOSolver(PolicyMethodParams(BasePolicyMethod.SGS_READY, delta_time_freedom=0, delta_index_freedom=0), method=dos.SolvingMethod.PILE)
    s.solve(lambda: d)
    obs = d.reset()
    for _ in range(300):
        if d.is_terminal(obs):
            break
        obs = d.step(s.sample_action(obs)).observation
    from skdecide.hub.solver.do_solver.sk_to_do_binding import from_last_state_to_solution
    sol = from_last_state_to_solution(obs, d)
expect('modes', list(sol.rcpsp_modes), Modes.chosen[1:-1])
'''
