exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c22-settled-states-left-out'
PROP = 'C22'
EDITS = [(HS + 'ilaostar.hh', 'if ((nst->goal) || (nst->solved)) {', 'if ((nst->goal) || (nst->solved) || ((nst->residual == 0.0) && (nst != &s))) {')]
NEEDS = 'a state whose last update did not change its value although the values of its successors still do'
BREAKS = 'the policy is not complete or not optimal'
EXTRA = extra(r'''
#include "mini.hh"
#include "hub/solver/ilaostar.hh"
int main() {
    int n = 0;
    // random problems: all policies must be complete
    std::mt19937 g(7);
    auto rnd = [&](int k) { return (int) (g() % k); };
    for (int it = 0; it < 150 && !bad; it++) {
        n = 14;
        table.assign(n, St{});
        for (int s = 0; s < n; s++) {
            table[s].goal = table[s].terminal = s == n - 1;
            if (s == n - 1) break;
            table[s].acts.push_back({0, {{1, 30., n - 1}}});
            for (int a = 1; a < 4; a++) {
                int x = rnd(n), y = rnd(n);
                if (x == y) table[s].acts.push_back({a, {{1, 1. + rnd(4), x}}});
                else table[s].acts.push_back({a, {{.5, 1. + rnd(4), x}, {.5, 1. + rnd(4), y}}});
            }
        }
        Domain d;
        skdecide::ILAOStarSolver<Domain> s(d, [](Domain &d, const State &x) { return d.is_goal(x); }, [](Domain &, const State &x) { return 0.; });
        s.solve(State(0));
        // optimal values
        std::vector<double> v(n, 0.);
        for (int k = 0; k < 3000; k++)
            for (int x = 0; x < n - 1; x++) {
                double b = 1e9;
                for (auto &a : table[x].acts) {
                    double q = 0;
                    for (auto &o : a.outs) q += o.p * (o.cost + v[o.to]);
                    b = std::min(b, q);
                }
                v[x] = b;
            }
        if (std::fabs(s.get_best_value(State(0)) - v[0]) > .2) { printf("problem %d: value %g, optimal %g\n", it, s.get_best_value(State(0)), v[0]); bad = 1; }
        std::set<int> seen{0};
        std::vector<int> todo{0};
        while (!todo.empty()) {
            int x = todo.back();
            todo.pop_back();
            if (table[x].goal) continue;
            if (!s.is_solution_defined_for(State(x))) { printf("problem %d: nothing is defined in %d\n", it, x); bad = 1; break; }
            for (auto &o : d.act(State(x), Event(s.get_best_action(State(x)).id)).outs) if (seen.insert(o.to).second) todo.push_back(o.to);
        }
    }
    return bad;
}
''')
