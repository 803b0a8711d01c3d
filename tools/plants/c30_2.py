exec(open('/verif/tools/plants/c30_1.py').read())
ID = 'c30-first-reward-discounted'
EDITS = [(HS + 'mcts.hh', """                reward += gamma_n * (o.reward());
                gamma_n *= solver.discount();
""", """                gamma_n *= solver.discount();
                reward += gamma_n * (o.reward());
""")]
NEEDS = 'a discount other than 1 and a rollout beyond the tree'
BREAKS = 'rewards of rollouts are discounted once too often'
EXTRA = extra(MCTSPRE + r"""
int main() {
    table.resize(4);
    table[0].acts = {{0, {{1, -1, 1}}}};
    table[1].acts = {{0, {{1, -1, 2}}}};
    table[2].acts = {{0, {{1, -1, 3}}}};
    table[3].terminal = true;
    D d;
    Solver s(d, 100000, 1, 10, .5);
    s.solve(State(0));
    expect("value of the only course of events", s.get_best_value(State(0)), 1.75);
    return bad;
}
""")
