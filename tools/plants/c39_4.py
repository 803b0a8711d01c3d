exec(open('/verif/tools/plants/_explore_base.py').read())
ID = 'c39-merged-graphs-keep-leaves'
PROP = 'C39'
EDITS = [('skdecide/hub/solver/graph_explorer/GraphDomain.py', '''                    if action not in next_state_map[k]:
                        next_state_map[k]''', '''                    if next_state_map[k] and action not in next_state_map[k]:
                        next_state_map[k]''')]
NEEDS = 'two explorations stopped at different places, the first of which met a state it did not expand'
BREAKS = 'merging loses the transitions the second graph has from states the first left open'
DEMO = GRAPH + '''
d = domain({0: {'a': {1: (1, 5)}, 'b': {3: (1, 1)}}, 1: {'a': {2: (1, 1)}}, 2: {'a': {3: (1, 1)}}}, 3, True)
g = DFSExploration(d, 100, 100, 0).build_graph_domain(verbose=False)
h = DFSExploration(d, 100, 100, 100).build_graph_domain(1, verbose=False)
expect('first', {s: sorted(a) for s, a in g.next_state_map.items()}, {0: ['a', 'b'], 1: [], 3: []})
m = g.merge(h)
expect('merged', {s: sorted(a) for s, a in m.next_state_map.items()}, {0: ['a', 'b'], 1: ['a'], 2: ['a'], 3: []})
'''
