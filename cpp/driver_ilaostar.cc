#include "driver.hh"
#include "hub/solver/ilaostar.hh"

template <typename X>
struct A : Planner {
    skdecide::ILAOStarSolver<Domain, X> s;
    A(Domain &d) : s(d, [](Domain &d, const State &x) -> bool { return d.is_goal(x); },
                     [](Domain &d, const State &x) { return d.h(x); }, par(0, 1.), par(1, .001), false) {}
    void solve(int x) override { s.solve(State(x)); }
    void clear() override { s.clear(); }
    bool defined(int x) override { return s.is_solution_defined_for(State(x)); }
    int action(int x) override { return s.get_best_action(State(x)).id; }
    double value(int x) override { return s.get_best_value(State(x)); }
    void extra() override {
        sim::put("{\"explored\":%zu,\"bsg\":%zu,\"policy\":{", s.get_nb_of_explored_states(), s.best_solution_graph_size());
        auto p = s.policy();
        int n = 0;
        for (auto &e : p) {
            sim::put("%s\"%d\":[%d,", n++ ? "," : "", e.first.id, e.second.first.id);
            sim::put_num(e.second.second);
            sim::put("]");
        }
        sim::put("}}");
    }
};
std::unique_ptr<Planner> make_planner(Domain &d) {
    if (P().parallel) return std::make_unique<A<skdecide::ParallelExecution>>(d);
    return std::make_unique<A<skdecide::SequentialExecution>>(d);
}
