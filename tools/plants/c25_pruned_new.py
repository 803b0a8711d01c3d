exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c25-only-new-states-count-as-pruned'
PROP = 'C25'
EDITS = [(HS + 'iw.hh', '[this, &feature_tuples, &open_queue, &neighbor, &states_pruned]{', '[this, &i, &feature_tuples, &open_queue, &neighbor, &states_pruned]{'),
         (HS + 'iw.hh', '                                states_pruned = true;\n', '                                states_pruned = states_pruned || i.second;\n')]
NEEDS = 'a problem of width three or more'
BREAKS = 'a solvable problem is not solved although features tell all states apart'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/iw.hh"
int main() {
    // the start leads to states which show all pairs of values before the one that leads on
    std::vector<std::vector<int>> f = {{0, 0, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {1, 1, 1}, {2, 2, 2}};
    table.resize(6);
    for (int i = 0; i < 6; i++) table[i].feats = f[i];
    for (int i = 1; i < 5; i++) table[0].acts.push_back({i, {{1, 1. * i, i}}});
    table[4].acts.push_back({0, {{1, 1, 5}}});
    table[5].goal = table[5].terminal = true;
    Domain d;
    skdecide::IWSolver<Domain, Features> s(d, features);
    s.solve(State(0));
    expect("defined", s.is_solution_defined_for(State(0)), 1);
    expect("value", s.get_best_value(State(0)), 5);
    return bad;
}
''')
