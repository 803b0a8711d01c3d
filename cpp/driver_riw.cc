#include "driver.hh"
#include "hub/solver/riw.hh"

// par: own features identify states (hash by features), simulation instead of environment rollouts, time budget, rollout budget,
// maximum depth, exploration, discount, garbage
inline std::unique_ptr<Features> riw_features(Domain &, const State &s, const std::size_t *t) {
    sim::Quiet q; Call c(t);
    auto f = std::make_unique<Features>();
    f->v = Domain::st(s).feats;
    return f;
}
template <template <typename...> class H, template <typename...> class R, typename X>
struct A : Planner {
    typedef skdecide::RIWSolver<Domain, Features, H, R, X> S;
    Domain &d;
    S s;
    int agent = 0;
    A(Domain &d) : d(d), s(d, riw_features, (std::size_t) par(2), (std::size_t) par(3), (std::size_t) par(4), par(5), par(6, 1.), par(7) != 0) {}
    void solve(int x) override { s.solve(State(x)); }
    void clear() override { s.clear(); }
    bool defined(int x) override { return s.is_solution_defined_for(State(x)); }
    int action(int x) override { return s.get_best_action(State(x)).id; }
    double value(int x) override { return s.get_best_value(State(x)); }
    void extra() override {
        auto st = s.get_exploration_statistics();
        sim::put("{\"explored\":[%zu,%zu],\"pruned\":[%zu,%zu],\"rollouts\":%zu,\"prefix\":[", s.get_nb_of_explored_states(), st.first,
                 s.get_nb_of_pruned_states(), st.second, s.get_nb_rollouts());
        int n = 0;
        for (auto &a : s.action_prefix()) sim::put("%s%d", n++ ? "," : "", a.id);
        sim::put("],\"policy\":{");
        n = 0;
        for (auto &e : s.policy()) {
            sim::put("%s\"%d\":[%d,", n++ ? "," : "", e.first.id, e.second.first.id);
            sim::put_num(e.second.second);
            sim::put("]");
        }
        sim::put("},\"values\":[");
        for (std::size_t i = 0; i < P().s.size(); i++) {
            sim::put("%s[%d,", i ? "," : "", s.is_solution_defined_for(State((int) i)) ? 1 : 0);
            try { sim::put_num(s.get_best_value(State((int) i))); } catch (const std::runtime_error &) { sim::put("null"); }
            sim::put("]");
        }
        sim::put("]}");
    }
    // 8 s: plans from s; 6: the agent plans where it is, acts and moves on; 7 s: an episode begins in s
    void special(int op, int x) override {
        if (op == 7) { s.clear(); d.initial = agent = x; sim::put("[%d]", x); return; }
        if (op == 6 && (P().s[agent].terminal || P().s[agent].goal)) { sim::put("{\"over\":1}"); return; }
        if (op == 8) agent = x;
        std::string err;
        bool bad = false;
        std::uint64_t t0 = sim::w().ns;
        solving() = true;
        try { s.solve(State(agent)); } catch (const std::exception &e) { bad = true; err = e.what(); }
        solving() = false;
        sim::put("{\"at\":%d,\"ns\":%llu,\"rollouts\":%zu,\"pruned\":%zu,\"err\":", agent, (unsigned long long) (sim::w().ns - t0),
                 s.get_nb_rollouts(), s.get_nb_of_pruned_states());
        if (bad) {
            sim::put_str(err.c_str());
            sim::put("}");
            T().inside = 0;
            for (std::size_t i = 0; i < 64; i++) Call::busy(i) = 0;
            return;
        }
        if (op == 8) { sim::put("null}"); return; }
        sim::put("null,\"answer\":");
        int a = -1;
        bool def = s.is_solution_defined_for(State(agent));
        sim::put("[%d,", def ? 1 : 0);
        try { sim::put_num(s.get_best_value(State(agent))); } catch (const std::runtime_error &) { sim::put("null"); }
        sim::put(",");
        try { a = s.get_best_action(State(agent)).id; sim::put("%d]", a); } catch (const std::runtime_error &) { sim::put("null]"); }
        for (auto &c : P().s[agent].acts)
            if (c.id == a) { agent = c.outs[0].to; break; }
        sim::put(",\"to\":%d}", agent);
    }
};
template <template <typename...> class H, template <typename...> class R>
std::unique_ptr<Planner> make_with(Domain &d) {
    if (P().parallel) return std::make_unique<A<H, R, skdecide::ParallelExecution>>(d);
    return std::make_unique<A<H, R, skdecide::SequentialExecution>>(d);
}
std::unique_ptr<Planner> make_planner(Domain &d) {
    if (par(0) != 0) return par(1) != 0 ? make_with<skdecide::StateFeatureHash, skdecide::SimulationRollout>(d)
                                        : make_with<skdecide::StateFeatureHash, skdecide::EnvironmentRollout>(d);
    return par(1) != 0 ? make_with<skdecide::DomainStateHash, skdecide::SimulationRollout>(d)
                       : make_with<skdecide::DomainStateHash, skdecide::EnvironmentRollout>(d);
}
