exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c21-late-parents-forgotten'
PROP = 'C21'
EDITS = [(HS + 'aostar.hh', '''                            _execution_policy.protect([&next_node, &an]{
                                next_node.parents.push_back(&an);
                            });
''', '''                            if (next_node.actions.empty()) { // only states still to be expanded will be backed up
                                _execution_policy.protect([&next_node, &an]{
                                    next_node.parents.push_back(&an);
                                });
                            }
''')]
NEEDS = 'a state with two parents, one of them expanded after the state itself and while it is not solved yet'
BREAKS = 'the search does not come to an end, or its value is not the expected cost'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/aostar.hh"
int main() {
    // 0 -> {1, 2}; 2 -> 3 -> 4 (goal), 1 -> 2; h makes 2 expanded before 1
    table = {{0, 0, 0, {{0, {{.5, 1, 1}, {.5, 1, 2}}}}, {}}, {0, 0, 2, {{0, {{1, 1, 2}}}}, {}}, {0, 0, 1, {{0, {{1, 1, 3}}}}, {}},
             {0, 0, 9, {{0, {{1, 9, 4}}}}, {}}, {1, 1, 0, {}, {}}};
    Domain d;
    for (int k = 1; k < 4; k++) {
        for (int m = 0; m < 2; m++) {
            table[1].h = m ? 2 : 1;
            table[2].h = m ? 1 : 2;
            skdecide::AOStarSolver<Domain> s(d, [](Domain &d, const State &x) { return d.is_goal(x); },
                                             [](Domain &, const State &x) { return table[x.id].h; }, 1., k);
            s.solve(State(0));
            expect("defined", s.is_solution_defined_for(State(0)), 1);
            expect("value", s.get_best_value(State(0)), 11.5);
        }
    }
    return bad;
}
''')
