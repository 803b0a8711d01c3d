exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c21-dead-ends-revived'
PROP = 'C21'
EDITS = [(HS + 'aostar.hh', 'if (i.second) { // new node', 'if (i.second || (next_node.best_action == nullptr)) { // new or not expanded node')]
NEEDS = 'a dead end which was expanded before another state leading to it'
BREAKS = 'a state from which no goal can be reached gets the value of its heuristic'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/aostar.hh"
int main() {
    // 0 -a-> 1 (dead end), 0 -b-> 2; 2 -a-> 1, 2 -b-> 3 (goal)
    table = {{0, 0, 0, {{0, {{1, 1, 1}}}, {1, {{1, 2, 2}}}}, {}}, {0, 0, 0, {}, {}},
             {0, 0, 0, {{0, {{1, 1, 1}}}, {1, {{1, 5, 3}}}}, {}}, {1, 1, 0, {}, {}}};
    Domain d;
    skdecide::AOStarSolver<Domain> s(d, [](Domain &d, const State &x) { return d.is_goal(x); }, [](Domain &, const State &x) { return 0.; });
    s.solve(State(0));
    expect("defined", s.is_solution_defined_for(State(0)), 1);
    expect("value", s.get_best_value(State(0)), 7);
    expect("action", s.get_best_action(State(2)).id, 1);
    return bad;
}
''')
