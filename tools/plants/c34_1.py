exec(open('/verif/tools/plants/_do_base.py').read())
ID = 'c34-calendars-free-the-last-instant'
PROP = 'C34'
EDITS = [(DO + 'rcpsp/solver/rcpsp_pile.py', "                    for t in range(current_time, current_time+duration):\n", "                    for t in range(current_time, current_time+duration-1):\n")]
NEEDS = 'a project with a calendar and two tasks which compete for a resource, one ending while the other, longer one, still runs'
BREAKS = 'the greedy schedule of a project with calendars uses more of a resource than there is, in the last instant of a task'
DEMO = PROJECT + '''
n = 4
need = {2: (3, 1), 3: (2, 1), 4: (2, 1), 5: (2, 2)}
model = RCPSPModelCalendar(resources={'r': [2] * 40}, non_renewable_resources=[],
                           mode_details={t: {1: {'duration': need.get(t, (0, 0))[0], 'r': need.get(t, (0, 0))[1]}} for t in range(1, 7)},
                           successors={1: [2, 3, 4, 5, 6], 2: [6], 3: [6], 4: [6], 5: [6], 6: []}, horizon=40)
Modes.chosen = [1] * 6
for seed in range(8):
    random.seed(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        s = rcpsp_pile.PileSolverRCPSP_Calendar(model).solve(greedy_choice=rcpsp_pile.GreedyChoice.TOTALLY_RANDOM).get_best_solution()
    for t in range(20):
        use = sum(need[k][1] for k, e in s.rcpsp_schedule.items() if k in need and e['start_time'] <= t < e['end_time'])
        expect(f'{use} of 2 used at {t}', use <= 2, True)
'''
