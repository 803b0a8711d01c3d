exec(open('/verif/tools/plants/_explore_base.py').read())
ID = 'c39-one-transition-per-pair-of-states'
PROP = 'C39'
EDITS = [('skdecide/hub/solver/graph_explorer/DFSExploration.py', '''                if action not in next_state_map[vertex]:
                    nb_edges += 1
''', '''                if action not in next_state_map[vertex] and next not in next_state_map[vertex].values():
                    nb_edges += 1
''')]
NEEDS = 'two actions of a state which lead to the same state, the second cheaper'
BREAKS = 'the explored graph lacks the cheaper of two parallel transitions'
DEMO = GRAPH + '''
d = domain({0: {'a': {1: (1, 5)}, 'b': {1: (1, 1)}, 'c': {2: (1, 4)}}, 1: {'a': {2: (1, 1)}}}, 2, True)
g = DFSExploration(d, 100, 100, 100).build_graph_domain(verbose=False)
expect('transitions', {s: sorted(a) for s, a in g.next_state_map.items()}, {0: ['a', 'b', 'c'], 1: ['a'], 2: []})
'''
