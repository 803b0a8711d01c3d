exec(open('/verif/tools/plants/_do_base.py').read())
ID = 'c37-critical-path-spends-the-calendar'
PROP = 'C37'
EDITS = [(DO + 'rcpsp/solver/cpm.py', '''    def run_sgs_on_order(self,
                         map_nodes: Dict[Any, CPMObject],
                         critical_path: List[Any],
                         total_order: List[Any]=None,
                         cut_sgs_by_critical=True):
        # 1, 2
        if total_order is None:
            total_order = self.return_order_cpm()
        index_in_order = {total_order[i]: i for i in range(len(total_order))}
        resource_avail_in_time = {}
        for res in list(self.rcpsp_model.resources.keys()):
            if isinstance(self.rcpsp_model, RCPSPModelCalendar):
                resource_avail_in_time[res] = self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1]
''', '''    def run_sgs_on_order(self,
                         map_nodes: Dict[Any, CPMObject],
                         critical_path: List[Any],
                         total_order: List[Any]=None,
                         cut_sgs_by_critical=True):
        # 1, 2
        if total_order is None:
            total_order = self.return_order_cpm()
        index_in_order = {total_order[i]: i for i in range(len(total_order))}
        resource_avail_in_time = {}
        for res in list(self.rcpsp_model.resources.keys()):
            if isinstance(self.rcpsp_model, RCPSPModelCalendar):
                resource_avail_in_time[res] = self.rcpsp_model.resources[res]
''')]
NEEDS = 'a second schedule, or any other use, of a project with calendars after a schedule made from its critical path'
BREAKS = 'making a schedule takes the resources out of the calendars of the project: later schedules have them no more'
DEMO = PROJECT + '''
from skdecide.builders.discrete_optimization.rcpsp.solver.cpm import CPM
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModelCalendar
d = {1: 0, 2: 2, 3: 3, 4: 0}
p = RCPSPModelCalendar(resources={'R': [1, 2, 2, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1]}, non_renewable_resources=[],
                       successors={1: [2, 3], 2: [4], 3: [4], 4: []}, horizon=12,
                       mode_details={t: {1: {'R': min(d[t], 1), 'duration': d[t]}} for t in d})
got = []
with contextlib.redirect_stdout(io.StringIO()):
    for _ in range(2):
        c = CPM(p)
        path = c.run_classic_cpm()
        got.append({t: x['start_time'] for t, x in c.run_sgs_on_order(c.map_node, path)[0].items()})
expect('second schedule', got[1], got[0])
expect('calendar', p.resources['R'][:4], [1, 2, 2, 0])
'''
