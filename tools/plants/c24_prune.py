exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c24-states-without-novelty-dropped'
PROP = 'C24'
EDITS = [(HS + 'bfws.hh', '''                        open_queue.push(&neighbor);
''', '''                        if (neighbor.novelty <= neighbor.features->size()) {
                            open_queue.push(&neighbor);
                        }
''')]
NEEDS = 'a goal reached only through a state whose features are not new among those of the same heuristic value'
BREAKS = 'a solvable problem is not solved'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/bfws.hh"
int main() {
    table = {{0, 0, 1, {{0, {{1, 1, 1}}}, {1, {{1, 1, 2}}}}, {0, 0}}, {0, 0, 1, {}, {0, 1}}, {0, 0, 1, {{0, {{1, 1, 3}}}}, {1, 0}},
             {0, 0, 1, {{0, {{1, 1, 4}}}}, {1, 1}}, {1, 1, 0, {}, {2, 2}}};
    Domain d;
    skdecide::BFWSSolver<Domain, Features> s(d, features, [](Domain &, const State &x) { return table[x.id].h; }, [](Domain &d, const State &x) { return d.is_goal(x); });
    s.solve(State(0));
    expect("defined", s.is_solution_defined_for(State(0)), 1);
    expect("value", s.get_best_value(State(0)), 3);
    return bad;
}
''')
