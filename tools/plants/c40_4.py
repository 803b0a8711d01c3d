exec(open('/verif/tools/plants/_wrap_base.py').read())
ID = 'c40-shared-memory-processes-stay'
PROP = 'C40'
EDITS = [('skdecide/builders/solver/parallelability.py', '''        if self._domain is not None and self._parallel:
''', '''        if self._domain is not None and self._parallel and self._shared_memory_proxy is None:
''')]
NEEDS = 'a parallel planner with shared memory'
BREAKS = 'processes of parallel domains are left running after the solver is closed'
DEMO = WRAP + '''
for proxy in (None, object()):
    with wrapper('astar', 'Astar')(domain_factory=Dom, parallel=True, shared_memory_proxy=proxy) as s:
        s.solve(Dom)
    expect('processes', Parallel.living, 0)
'''
