exec(open('/verif/tools/plants/_moves_base.py').read())
ID = 'c32-schedule-follows-only-the-last-predecessor'
PROP = 'C32'
EDITS = [(DO + 'rcpsp/rcpsp_model.py', "                    minimum_starting_time[s] = max(minimum_starting_time[s], activity_end_times[act_id])  # 20\n\n        # print('activity_end_times: ', activity_end_times)\n        self.rcpsp_schedule = {}\n        for act_id in activity_end_times:\n            self.rcpsp_schedule[act_id] = {}\n            self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']\n            self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]\n        if unfeasible_non_renewable_resources:\n            self.rcpsp_schedule_feasible = False\n            last_act_id = list(self.problem.successors.keys())[-1]\n            if last_act_id not in self.rcpsp_schedule.keys():\n                self.rcpsp_schedule[last_act_id] = {}\n                self.rcpsp_schedule[last_act_id]['start_time'] = 99999999\n                self.rcpsp_schedule[last_act_id]['end_time'] = 9999999\n        else:\n            self.rcpsp_schedule_feasible = True\n        self._schedule_to_recompute = False\n\n    # TODO: Check that this new SGS can be used instead of t",
          "                    minimum_starting_time[s] = activity_end_times[act_id]  # 20\n\n        # print('activity_end_times: ', activity_end_times)\n        self.rcpsp_schedule = {}\n        for act_id in activity_end_times:\n            self.rcpsp_schedule[act_id] = {}\n            self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']\n            self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]\n        if unfeasible_non_renewable_resources:\n            self.rcpsp_schedule_feasible = False\n            last_act_id = list(self.problem.successors.keys())[-1]\n            if last_act_id not in self.rcpsp_schedule.keys():\n                self.rcpsp_schedule[last_act_id] = {}\n                self.rcpsp_schedule[last_act_id]['start_time'] = 99999999\n                self.rcpsp_schedule[last_act_id]['end_time'] = 9999999\n        else:\n            self.rcpsp_schedule_feasible = True\n        self._schedule_to_recompute = False\n\n    # TODO: Check that this new SGS can be used instead of t")]
NEEDS = 'a task with two predecessors, the one later in the permutation ending earlier'
BREAKS = 'the task starts before one of its predecessors ends; the makespan reported is too small'
DEMO = MOVES + '''
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import *
m = SingleModeRCPSPModel(resources={'r': 2}, non_renewable_resources=[],
                         mode_details={t: {1: {'r': 1 if 1 < t < 5 else 0, 'duration': {2: 5, 3: 2, 4: 1}.get(t, 0)}} for t in range(1, 6)},
                         successors={1: [2, 3, 4, 5], 2: [4], 3: [4], 4: [5], 5: []}, horizon=20)
for perm, start in (([1, 0, 2], 5), ([0, 1, 2], 5)):
    s = RCPSPSolution(problem=m, rcpsp_permutation=perm, rcpsp_modes=[1, 1, 1])
    expect(f'makespan of {perm}', m.evaluate(s)['makespan'], 6)
    expect(f'start of {perm}', s.rcpsp_schedule[4]['start_time'], start)
'''
