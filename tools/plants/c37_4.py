exec(open('/verif/tools/plants/_lp_base.py').read())
ID = 'c37-program-orders-starts-by-the-first-pair'
PROP = 'C37'
EDITS = [(DO + 'rcpsp/solver/rcpsp_lp_solver.py', '''                    constraints += [self.model.add_constr(self.starts[t2-1] >= self.starts[t1-1]+delta+p[t1-1])]
''', '''                    constraints += [self.model.add_constr(self.starts[t2-1] >= self.starts[t1-1]+max(delta, p[t1-1]))]
''')]
NEEDS = 'a partial solution which asks for a delay after the end of a task'
BREAKS = 'a task starts before the delay asked for after the end of another'
DEMO = PROGRAM + '''
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import PartialSolution
d = {1: 0, 2: 2, 3: 1, 4: 0}
p = SingleModeRCPSPModel(resources={'R': 2}, non_renewable_resources=[], successors={1: [2, 3], 2: [4], 3: [4], 4: []}, horizon=20,
                         mode_details={t: {1: {'R': min(d[t], 1), 'duration': d[t]}} for t in d})
for delta in (-1, 0, 2, 3):
    ask = PartialSolution(task_mode=None, start_times=None)
    ask.start_at_end_plus_offset = [(2, 3, delta)]
    with contextlib.redirect_stdout(io.StringIO()):
        s = LP_RCPSP(p)
        far = RCPSPSolution(problem=p, rcpsp_schedule={1: dict(start_time=0, end_time=0), 2: dict(start_time=0, end_time=2),
                                                       3: dict(start_time=8, end_time=9), 4: dict(start_time=9, end_time=9)},
                            rcpsp_schedule_feasible=True)
        s.init_model(greedy_start=False, start_solution=far, partial_solution=ask)
        x = s.solve(parameters_milp=ParametersMilp.default()).list_solution_fits[0][0].rcpsp_schedule
    expect(f'delay {delta}', x[3]['start_time'] >= x[2]['end_time'] + delta, True)
    expect(f'delay {delta}: makespan', x[4]['start_time'], {-1: 2, 0: 3, 2: 5, 3: 6}[delta])
'''
