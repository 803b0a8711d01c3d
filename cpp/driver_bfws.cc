#include "driver.hh"
#include "hub/solver/bfws.hh"

template <template <typename...> class H, typename X>
struct A : Planner {
    skdecide::BFWSSolver<Domain, Features, H, X> s;
    A(Domain &d) : s(d, features, [](Domain &d, const State &x) { return d.h(x); },
                     [](Domain &d, const State &x) -> bool { return d.is_goal(x); }, false) {}
    void solve(int x) override { s.solve(State(x)); }
    void clear() override { s.clear(); }
    bool defined(int x) override { return s.is_solution_defined_for(State(x)); }
    int action(int x) override { return s.get_best_action(State(x)).id; }
    double value(int x) override { return s.get_best_value(State(x)); }
};
template <template <typename...> class H>
std::unique_ptr<Planner> make_with(Domain &d) {
    if (P().parallel) return std::make_unique<A<H, skdecide::ParallelExecution>>(d);
    return std::make_unique<A<H, skdecide::SequentialExecution>>(d);
}
std::unique_ptr<Planner> make_planner(Domain &d) {
    if (par(0) != 0) return make_with<skdecide::StateFeatureHash>(d);
    return make_with<skdecide::DomainStateHash>(d);
}
