#include "driver.hh"
#include "hub/solver/mcts.hh"

// par: time budget, rollout budget, maximum depth, discount, garbage, UCB constant, visits a heuristic value is worth,
// transition mode (0 step, 1 sample, 2 distribution), own rollout policy
template <typename X, template <typename> class M>
struct A : Planner {
    typedef skdecide::MCTSSolver<Domain, X, M> S;
    Domain &d;
    std::unique_ptr<S> s;
    int agent = 0;
    A(Domain &d) : d(d) {
        typedef typename S::Expander E;
        typedef typename S::RolloutPolicy R;
        auto e = std::make_unique<E>([](Domain &d, const State &x, const std::size_t *t) {
            return std::make_pair(par(6) > 0 ? d.h(x, t) : 0., (std::size_t) par(6)); });
        auto r = par(8) == 0 ? std::make_unique<R>() : std::make_unique<R>([](Domain &d, const State &x, const std::size_t *t) {
            auto a = d.get_applicable_actions(x, t).get_elements();
            if (a.empty()) throw std::runtime_error("no action to choose");
            return a[(std::size_t) x.id % a.size()]; });
        s = std::make_unique<S>(d, (std::size_t) par(0), (std::size_t) par(1), (std::size_t) par(2), par(3, 1.), par(4) != 0, false,
                                std::make_unique<typename S::TreePolicy>(), std::move(e),
                                std::make_unique<typename S::ActionSelectorOptimization>(par(5)),
                                std::make_unique<typename S::ActionSelectorExecution>(), std::move(r));
    }
    void solve(int x) override { s->solve(State(x)); }
    void clear() override { s->clear(); }
    bool defined(int x) override { return s->is_solution_defined_for(State(x)); }
    int action(int x) override { return s->get_best_action(State(x)).id; }
    double value(int x) override { return s->get_best_value(State(x)); }
    void extra() override {
        sim::put("{\"explored\":%zu,\"rollouts\":%zu,\"prefix\":[", s->nb_of_explored_states(), s->nb_rollouts());
        int n = 0;
        for (auto &a : s->action_prefix()) sim::put("%s%d", n++ ? "," : "", a.id);
        sim::put("],\"policy\":{");
        n = 0;
        for (auto &e : s->policy()) {
            sim::put("%s\"%d\":[%d,", n++ ? "," : "", e.first.id, e.second.first.id);
            sim::put_num(e.second.second);
            sim::put("]");
        }
        sim::put("},\"tree\":{");
        n = 0;
        for (auto &c : s->graph()) {
            auto &x = const_cast<typename S::StateNode &>(c);
            sim::put("%s\"%d\":[%d,%zu,", n++ ? "," : "", x.state.id, x.terminal ? 1 : 0, (std::size_t) x.visits_count);
            sim::put_num(x.value);
            sim::put(",[");
            int k = 0;
            for (auto &a : x.actions) {
                sim::put("%s[%d,%zu,", k++ ? "," : "", a.action.id, (std::size_t) a.visits_count);
                sim::put_num(a.value);
                sim::put(",[");
                if (!a.outcomes.empty()) {
                    auto pr = a.dist.probabilities();
                    for (std::size_t i = 0; i < a.dist_to_outcome.size(); i++) {
                        sim::put("%s[%d,", i ? "," : "", a.dist_to_outcome[i]->first->state.id);
                        sim::put_num(a.dist_to_outcome[i]->second.first);
                        sim::put(",");
                        sim::put_num(i < pr.size() ? pr[i] : -1.);
                        sim::put("]");
                    }
                }
                sim::put("]]");
            }
            sim::put("]]");
        }
        sim::put("}}");
    }
    // 8 s: plans from s; 6: the agent plans where it is, acts and moves on to one of the outcomes; 7 s: an episode begins in s
    void special(int op, int x) override {
        if (op == 7) { s->clear(); d.initial = agent = x; sim::put("[%d]", x); return; }
        if (op == 6 && (P().s[agent].terminal || P().s[agent].goal)) { sim::put("{\"over\":1}"); return; }
        if (op == 8) agent = x;
        std::string err;
        bool bad = false;
        std::uint64_t t0 = sim::w().ns;
        solving() = true;
        try { s->solve(State(agent)); } catch (const std::exception &e) { bad = true; err = e.what(); }
        solving() = false;
        sim::put("{\"at\":%d,\"ns\":%llu,\"rollouts\":%zu,\"err\":", agent, (unsigned long long) (sim::w().ns - t0), s->nb_rollouts());
        if (bad) {
            sim::put_str(err.c_str());
            sim::put("}");
            T().inside = 0;
            for (std::size_t i = 0; i < 64; i++) Call::busy(i) = 0;
            return;
        }
        if (op == 8) { sim::put("null}"); return; }
        sim::put("null,\"answer\":");
        int a = -1;
        bool def = s->is_solution_defined_for(State(agent));
        sim::put("[%d,", def ? 1 : 0);
        try { sim::put_num(s->get_best_value(State(agent))); } catch (const std::runtime_error &) { sim::put("null"); }
        sim::put(",");
        try { a = s->get_best_action(State(agent)).id; sim::put("%d]", a); } catch (const std::runtime_error &) { sim::put("null]"); }
        for (auto &c : P().s[agent].acts)
            if (c.id == a) { agent = c.outs[(std::size_t) x % c.outs.size()].to; break; }
        sim::put(",\"to\":%d}", agent);
    }
};
template <typename X>
std::unique_ptr<Planner> make(Domain &d) {
    switch ((int) par(7)) {
        case 0: return std::make_unique<A<X, skdecide::StepTransitionMode>>(d);
        case 1: return std::make_unique<A<X, skdecide::SampleTransitionMode>>(d);
        default: return std::make_unique<A<X, skdecide::DistributionTransitionMode>>(d);
    }
}
std::unique_ptr<Planner> make_planner(Domain &d) {
    if (P().parallel) return make<skdecide::ParallelExecution>(d);
    return make<skdecide::SequentialExecution>(d);
}
