exec(open('/verif/tools/plants/_lp_base.py').read())
ID = 'c37-program-holds-resources-as-long-as-the-slowest-mode'
PROP = 'C37'
EDITS = [(DO + 'rcpsp/solver/rcpsp_lp_solver.py', '''                                  for key in self.x
                                  if key[2] <= t < key[2]+int(self.rcpsp_model.mode_details[key[0]][key[1]]["duration"]))
''', '''                                  for key in self.x
                                  if t-p[sorted_tasks.index(key[0])] < key[2] <= t)
''')]
NEEDS = 'a task which an optimal schedule does in a mode which is not its slowest, followed by another which needs the same resource'
BREAKS = 'the program of a project of several modes holds resources longer than needed: its schedules are not the shortest'
DEMO = PROGRAM + '''
d = {1: {1: (0, 0)}, 2: {1: (2, 1), 2: (5, 1)}, 3: {1: (2, 1), 2: (6, 1)}, 4: {1: (0, 0)}}
p = MultiModeRCPSPModel(resources={'R': 1}, non_renewable_resources=[], successors={1: [2, 3], 2: [4], 3: [4], 4: []}, horizon=20,
                        mode_details={t: {m: {'R': r, 'duration': k} for m, (k, r) in ms.items()} for t, ms in d.items()})
Modes.chosen = [1, 2, 1, 1]
for chosen in ([1, 1], [2, 1]):
    with contextlib.redirect_stdout(io.StringIO()):
        s = LP_MRCPSP(p)
        s.init_model(greedy_start=False, start_solution=RCPSPSolution(problem=p, rcpsp_permutation=[1, 0], rcpsp_modes=chosen))
        pairs = s.solve(parameters_milp=ParametersMilp.default()).list_solution_fits
    expect(f'makespans from {chosen}', [x.rcpsp_schedule[4]['start_time'] for x, _ in pairs], [4])
'''
