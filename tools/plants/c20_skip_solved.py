exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c20-known-states-not-entered'
PROP = 'C20'
EDITS = [(HS + 'astar.hh', 'if (neighbor_closed) {', 'if (neighbor_closed || neighbor.solved) {')]
NEEDS = 'two searches, the second of which can reach the goal only through a state solved by the first one'
BREAKS = 'a solvable problem is not solved'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/astar.hh"
int main() {
    table = {{0, 0, 0, {{0, {{1, 1, 1}}}, {1, {{1, 9, 2}}}}, {}}, {0, 0, 0, {{0, {{1, 1, 2}}}}, {}}, {1, 1, 0, {}, {}}};
    Domain d;
    skdecide::AStarSolver<Domain> s(d, [](Domain &d, const State &x) { return d.is_goal(x); }, [](Domain &, const State &) { return 0.; });
    s.solve(State(1));
    s.solve(State(0));
    expect("defined", s.is_solution_defined_for(State(0)), 1);
    expect("value", s.get_best_value(State(0)), 2);
    return bad;
}
''')
