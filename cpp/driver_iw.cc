#include "driver.hh"
#include "hub/solver/iw.hh"

template <template <typename...> class H, typename X>
struct A : Planner {
    skdecide::IWSolver<Domain, Features, H, X> s;
    typedef std::function<bool (const double &, const std::size_t &, const std::size_t &,
                                const double &, const std::size_t &, const std::size_t &)> Order;
    static Order order() {
        if (par(2) == 1) return [](const double &, const std::size_t &an, const std::size_t &ad,
                                   const double &, const std::size_t &bn, const std::size_t &bd) {
            return an > bn || (an == bn && ad > bd); };
        if (par(2) == 2) return [](const double &ag, const std::size_t &, const std::size_t &ad,
                                   const double &bg, const std::size_t &, const std::size_t &bd) {
            return ad > bd || (ad == bd && ag > bg); };
        return nullptr;
    }
    A(Domain &d) : s(d, features, order(), (std::size_t) par(1), false) {}
    void solve(int x) override { s.solve(State(x)); }
    void clear() override { s.clear(); }
    bool defined(int x) override { return s.is_solution_defined_for(State(x)); }
    int action(int x) override { return s.get_best_action(State(x)).id; }
    double value(int x) override { return s.get_best_value(State(x)); }
    void extra() override {
        sim::put("{\"explored\":%zu,\"pruned\":%zu,\"scores\":[", s.get_nb_of_explored_states(), s.get_nb_of_pruned_states());
        int n = 0;
        for (auto &e : s.get_intermediate_scores()) {
            sim::put("%s[%zu,%zu,", n++ ? "," : "", std::get<0>(e), std::get<1>(e));
            sim::put_num(std::get<2>(e));
            sim::put("]");
        }
        sim::put("]}");
    }
};
template <template <typename...> class H>
std::unique_ptr<Planner> make_with(Domain &d) {
    if (P().parallel) return std::make_unique<A<H, skdecide::ParallelExecution>>(d);
    return std::make_unique<A<H, skdecide::SequentialExecution>>(d);
}
std::unique_ptr<Planner> make_planner(Domain &d) {
    if (par(0) != 0) return make_with<skdecide::StateFeatureHash>(d);
    return make_with<skdecide::DomainStateHash>(d);
}
