#include "driver.hh"
#include "hub/solver/astar.hh"

template <typename X>
struct A : Planner {
    skdecide::AStarSolver<Domain, X> s;
    A(Domain &d) : s(d, [](Domain &d, const State &x) -> bool { return d.is_goal(x); },
                     [](Domain &d, const State &x) { return d.h(x); }, false) {}
    void solve(int x) override { s.solve(State(x)); }
    void clear() override { s.clear(); }
    bool defined(int x) override { return s.is_solution_defined_for(State(x)); }
    int action(int x) override { return s.get_best_action(State(x)).id; }
    double value(int x) override { return s.get_best_value(State(x)); }
};
std::unique_ptr<Planner> make_planner(Domain &d) {
    if (P().parallel) return std::make_unique<A<skdecide::ParallelExecution>>(d);
    return std::make_unique<A<skdecide::SequentialExecution>>(d);
}
