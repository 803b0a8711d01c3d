exec(open('/verif/tools/plants/c30_1.py').read())
ID = 'c30-unvisited-outcomes-dropped'
EDITS = [(HS + 'mcts.hh', """                        if (subgraph.find(outcome.first) == subgraph.end()) {
                            new_frontier""", """                        if (outcome.first->visits_count > 0 && subgraph.find(outcome.first) == subgraph.end()) {
                            new_frontier""")]
NEEDS = 'node garbage collection, a stochastic action with an outcome not yet visited, and a later search'
BREAKS = 'outcomes which were not yet visited are freed while actions still refer to them'
EXTRA = extra(MCTSPRE + r"""
int main() {
    int n = 60;
    table.resize(n + 2);
    Act a{0, {}};
    for (int i = 0; i < n; i++) { a.outs.push_back({1. / n, 1, i + 2}); table[i + 2].terminal = true; }
    table[0].acts = {{0, {{1, 1, 1}}}};
    table[1].acts = {a};
    D d;
    Solver s(d, 100000, 3, 10, 1., true);
    s.solve(State(0));
    s.get_best_action(State(0));
    s.solve(State(1));
    s.get_best_action(State(1));
    s.solve(State(1));
    std::size_t left = s.nb_of_explored_states();
    if (left < 61) { printf("%zu of 61 states left\n", left); bad = 1; }
    return bad;
}
""")
