exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c24-zero-heuristic-is-a-goal'
PROP = 'C24'
EDITS = [(HS + 'bfws.hh', 'if (_termination_checker(_domain, best_tip_node->state) || best_tip_node->solved) {', 'if ((best_tip_node->heuristic <= 0 && best_tip_node != &root_node) || _termination_checker(_domain, best_tip_node->state) || best_tip_node->solved) {')]
NEEDS = 'a heuristic function which is zero in a state that is no goal'
BREAKS = 'a plan ends in a state which is no goal'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/bfws.hh"
int main() {
    table = {{0, 0, 1, {{0, {{1, 1, 1}}}, {1, {{1, 1, 2}}}}, {0, 0}}, {0, 0, 0, {}, {0, 1}}, {0, 0, 1, {{0, {{1, 1, 3}}}}, {1, 0}}, {1, 1, 0, {}, {2, 2}}};
    Domain d;
    skdecide::BFWSSolver<Domain, Features> s(d, features, [](Domain &, const State &x) { return table[x.id].h; }, [](Domain &d, const State &x) { return d.is_goal(x); });
    s.solve(State(0));
    expect("action", s.get_best_action(State(0)).id, 1);
    expect("value", s.get_best_value(State(0)), 2);
    return bad;
}
''')
