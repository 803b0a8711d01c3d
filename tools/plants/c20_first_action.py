exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c20-parallel-edges'
PROP = 'C20'
EDITS = [(HS + 'astar.hh', '_execution_policy.protect([&closed_set, &neighbor, &neighbor_closed]{\n                        neighbor_closed = (closed_set.find(&neighbor) != closed_set.end());',
 '''_execution_policy.protect([&closed_set, &neighbor, &neighbor_closed, &best_tip_node, &i]{
                        // closed, or already generated by the expansion of the same node
                        neighbor_closed = (closed_set.find(&neighbor) != closed_set.end()) ||
                                          (!i.second && (std::get<0>(neighbor.best_parent) == best_tip_node));''')]
NEEDS = 'two actions which lead from one state to the same next state, the cheaper one tried later'
BREAKS = 'the plan is not the cheapest one'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/astar.hh"
int main() {
    table = {{0, 0, 0, {{0, {{1, 1, 1}}}}, {}}, {0, 0, 0, {{0, {{1, 5, 2}}}}, {}}, {1, 1, 0, {}, {}}, {0, 0, 0, {{0, {{1, 7, 2}}}, {1, {{1, 2, 2}}}}, {}}};
    // the cost depends on the action
    Domain d;
    skdecide::AStarSolver<Domain> s(d, [](Domain &d, const State &x) { return d.is_goal(x); }, [](Domain &, const State &) { return 0.; });
    s.solve(State(0));
    expect("value", s.get_best_value(State(0)), 6);
    s.solve(State(3));
    expect("action", s.get_best_action(State(3)).id, 1);
    expect("value", s.get_best_value(State(3)), 2);
    return bad;
}
''')
