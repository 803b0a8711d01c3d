exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c22-reachability-in-two-sweeps'
PROP = 'C22'
EDITS = [(HS + 'ilaostar.hh', '        while (changes) {\n            changes = false;', '        for (std::size_t sweep = 0 ; changes && (sweep < 2) ; sweep++) {\n            changes = false;')]
NEEDS = 'value iteration changes the best policy to one whose unexpanded states are several steps away'
BREAKS = 'the policy of a start said to be solved is not complete'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/ilaostar.hh"
int main() {
    int n = 0;
    // random problems: all policies must be complete
    std::mt19937 g(7);
    auto rnd = [&](int k) { return (int) (g() % k); };
    for (int it = 0; it < 4000 && !bad; it++) {
        n = 14;
        table.assign(n, St{});
        for (int s = 0; s < n; s++) {
            table[s].goal = table[s].terminal = s == n - 1;
            if (s == n - 1) break;
            table[s].acts.push_back({0, {{1, 30., n - 1}}});
            for (int a = 1; a < 4; a++) {
                int x = rnd(n), y = rnd(n);
                if (x == y) table[s].acts.push_back({a, {{1, 1. + rnd(4), x}}});
                else table[s].acts.push_back({a, {{.5, 1. + rnd(4), x}, {.5, 1. + rnd(4), y}}});
            }
        }
        Domain d;
        skdecide::ILAOStarSolver<Domain> s(d, [](Domain &d, const State &x) { return d.is_goal(x); }, [](Domain &, const State &x) { return 0.; });
        s.solve(State(0));
        std::set<int> seen{0};
        std::vector<int> todo{0};
        while (!todo.empty()) {
            int x = todo.back();
            todo.pop_back();
            if (table[x].goal) continue;
            if (!s.is_solution_defined_for(State(x))) { printf("problem %d: nothing is defined in %d\n", it, x); bad = 1; break; }
            for (auto &o : d.act(State(x), Event(s.get_best_action(State(x)).id)).outs) if (seen.insert(o.to).second) todo.push_back(o.to);
        }
    }
    return bad;
}
''')
