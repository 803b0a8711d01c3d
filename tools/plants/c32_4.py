exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c32-non-renewables-of-the-mode-of-another-task'
PROP = 'C32'
EDITS = [(DO + 'rcpsp/rcpsp_model.py', '''                for act_id in list(self.successors.keys()):
                    mode = modes_extended[act_id-1]
                    usage += self.mode_details[act_id][mode][res]
                if usage > self.resources[res]:
                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
                    return False

            # Check precedences / successors
            for act_id in list(self.successors.keys()):
                for succ_id in self.successors[act_id]:
                    start_succ = rcpsp_sol.rcpsp_schedule[succ_id]['start_time']
                    end_pred = rcpsp_sol.rcpsp_schedule[act_id]['end_time']
                    if start_succ < end_pred:
                        print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id, 'start at', start_succ)
                        return False

            return True

    def __str__(self):
        val = "RCPSP model"
''', '''                for act_id in list(self.successors.keys()):
                    mode = min(modes_extended[act_id-2], len(self.mode_details[act_id]))
                    usage += self.mode_details[act_id][mode][res]
                if usage > self.resources[res]:
                    print('Non-renewable resource violation: act_id: ', act_id, 'res', res, 'res_usage: ', resource_usage[res], 'res_avail: ', self.resources[res])
                    return False

            # Check precedences / successors
            for act_id in list(self.successors.keys()):
                for succ_id in self.successors[act_id]:
                    start_succ = rcpsp_sol.rcpsp_schedule[succ_id]['start_time']
                    end_pred = rcpsp_sol.rcpsp_schedule[act_id]['end_time']
                    if start_succ < end_pred:
                        print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id, 'start at', start_succ)
                        return False

            return True

    def __str__(self):
        val = "RCPSP model"
''')]
NEEDS = 'tasks in different modes, the modes of their neighbours using more of a non-renewable resource than there is'
BREAKS = 'feasible schedules are judged infeasible'
DEMO = MOVES + '''
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import *
D = {1: {1: {'n': 0, 'duration': 0}}, 2: {1: {'n': 0, 'duration': 1}, 2: {'n': 1, 'duration': 1}},
     3: {1: {'n': 1, 'duration': 1}, 2: {'n': 5, 'duration': 1}}, 4: {1: {'n': 0, 'duration': 0}}}
m = MultiModeRCPSPModel(resources={'n': 2}, non_renewable_resources=['n'], mode_details=D,
                        successors={1: [2, 3, 4], 2: [4], 3: [4], 4: []}, horizon=9)
with contextlib.redirect_stdout(io.StringIO()):
    got = {tuple(x): m.satisfy(RCPSPSolution(problem=m, rcpsp_permutation=[0, 1], rcpsp_modes=list(x)))
           for x in ((1, 1), (2, 1), (1, 2), (2, 2))}
expect('satisfied', got, {(1, 1): True, (2, 1): True, (1, 2): False, (2, 2): False})
'''
