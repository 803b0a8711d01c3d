exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c23-only-best-successors-kept'
PROP = 'C23'
EDITS = [(HS + 'lrtdp.hh', '''                for (auto& action : n->actions) {
                    for (auto& outcome : action->outcomes) {
                        if (subgraph.find(std::get<2>(outcome)) == subgraph.end()) {
                            new_frontier.insert(std::get<2>(outcome));
                            subgraph.insert(std::get<2>(outcome));
                        }
                    }
                }
''', '''                if (n->best_action != nullptr) { // the agent follows the best actions
                    for (auto& outcome : n->best_action->outcomes) {
                        if (subgraph.find(std::get<2>(outcome)) == subgraph.end()) {
                            new_frontier.insert(std::get<2>(outcome));
                            subgraph.insert(std::get<2>(outcome));
                        }
                    }
                }
''')]
NEEDS = 'online node garbage, an agent which asked for two actions, and a further search'
BREAKS = 'successors of kept states are freed, a later search uses them'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/lrtdp.hh"
int main() {
    table = {{0, 0, 0, {{0, {{1, 1, 1}}}, {1, {{1, 2, 2}}}}, {}}, {0, 0, 0, {{0, {{.5, 1, 4}, {.5, 1, 3}}}, {1, {{1, 4, 2}}}}, {}},
             {0, 0, 0, {{0, {{1, 50, 4}}}}, {}}, {0, 0, 0, {{0, {{.5, 1, 1}, {.5, 1, 3}}}, {1, {{1, 3, 4}}}, {2, {{1, 1, 5}}}}, {}}, {1, 1, 0, {}, {}},
             {0, 0, 0, {{0, {{1, 90, 4}}}, {1, {{1, 1, 3}}}}, {}}};
    Domain d;
    typedef const std::size_t *T;
    skdecide::LRTDPSolver<Domain> s(d, [](Domain &d, const State &x, T) { return d.is_goal(x); }, [](Domain &, const State &x, T) { return 0.; },
                                    false, 100000, 3, 4, 1., .001, true);
    for (int k = 0; k < 20; k++)
        for (int x : {0, 1, 3, 1, 3, 5, 0}) {
            s.solve(State(x));
            s.get_best_action(State(x));
        }
    return bad;
}
''')
