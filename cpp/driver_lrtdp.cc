#include "driver.hh"
#include "hub/solver/lrtdp.hh"

template <typename X>
struct A : Planner {
    skdecide::LRTDPSolver<Domain, X> s;
    A(Domain &d) : s(d, [](Domain &d, const State &x, const std::size_t *t) -> bool { return d.is_goal(x, t); },
                     [](Domain &d, const State &x, const std::size_t *t) { return d.h(x, t); },
                     par(0, 1) != 0, (std::size_t) par(1, 3600000), (std::size_t) par(2, 100000), (std::size_t) par(3, 1000),
                     par(4, 1.), par(5, .001), par(6) != 0, false) {}
    void solve(int x) override { s.solve(State(x)); }
    void clear() override { s.clear(); }
    bool defined(int x) override { return s.is_solution_defined_for(State(x)); }
    int action(int x) override { return s.get_best_action(State(x)).id; }
    double value(int x) override { return s.get_best_value(State(x)); }
    void extra() override {
        sim::put("{\"explored\":%zu,\"rollouts\":%zu,\"policy\":{", s.get_nb_of_explored_states(), s.get_nb_rollouts());
        auto p = s.policy();
        int n = 0;
        for (auto &e : p) {
            sim::put("%s\"%d\":[%d,", n++ ? "," : "", e.first.id, e.second.first.id);
            sim::put_num(e.second.second);
            sim::put("]");
        }
        sim::put("}}");
    }
    // 5 s: what is known of a state, without asking for the action (which may drop nodes)
    void special(int op, int x) override {
        sim::put("[%d,", s.is_solution_defined_for(State(x)) ? 1 : 0);
        try { sim::put_num(s.get_best_value(State(x))); } catch (const std::runtime_error &) { sim::put("null"); }
        sim::put("]");
    }
};
std::unique_ptr<Planner> make_planner(Domain &d) {
    if (P().parallel) return std::make_unique<A<skdecide::ParallelExecution>>(d);
    return std::make_unique<A<skdecide::SequentialExecution>>(d);
}
