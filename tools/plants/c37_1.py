exec(open('/verif/tools/plants/_do_base.py').read())
ID = 'c37-critical-path-pushes-the-last-predecessor'
PROP = 'C37'
EDITS = [(DO + 'rcpsp/solver/cpm.py', '''                        max_esd = max([self.map_node[n]._EFD for n in pred])
                        heappush(queue, (max_esd, next_node))
''', '''                        # nodes come in the order of time: this is the last of the predecessors.
                        heappush(queue, (self.map_node[node]._EFD, next_node))
''')]
NEEDS = 'a task whose predecessor which starts last is not the one which ends last'
BREAKS = 'earliest dates are too early, and critical paths do not last as long as the project'
DEMO = PROJECT + '''
from skdecide.builders.discrete_optimization.rcpsp.solver.cpm import CPM
d = {1: 0, 2: 7, 3: 2, 4: 3, 5: 1, 6: 0}
succ = {1: [2, 3], 2: [5], 3: [4], 4: [5], 5: [6], 6: []}
p = SingleModeRCPSPModel(resources={'R': 3}, non_renewable_resources=[], successors=succ, horizon=30,
                         mode_details={t: {1: {'R': min(d[t], 1), 'duration': d[t]}} for t in d})
c = CPM(p)
with contextlib.redirect_stdout(io.StringIO()):
    path = c.run_classic_cpm()
expect('earliest start of 5', c.map_node[5]._ESD, 7)
expect('path', path, [1, 2, 5, 6])
'''
