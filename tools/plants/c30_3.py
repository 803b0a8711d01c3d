exec(open('/verif/tools/plants/c30_1.py').read())
ID = 'c30-rollouts-beyond-the-depth'
EDITS = [(HS + 'mcts.hh', """            std::size_t current_depth = d;
            double reward = 0.0;""", """            std::size_t current_depth = 0;
            double reward = 0.0;""")]
NEEDS = 'a maximal depth which ends rollouts before the domain does'
BREAKS = 'a rollout from a node deep in the tree goes deeper than the maximal depth'
EXTRA = extra(MCTSPRE + r"""
int main() {
    table.resize(11);
    for (int i = 0; i < 10; i++) table[i].acts = {{0, {{1, -1, i + 1}}}};
    table[10].terminal = true;
    D d;
    Solver s(d, 100000, 1, 3);
    s.solve(State(0));
    expect("reward of three steps", s.get_best_value(State(0)), 3);
    return bad;
}
""")
