exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c31-last-feature-overlooked'
PROP = 'C31'
EDITS = [(HS + 'riw.hh', 'if (cv[i-1].first < n - k + i - 1) {', 'if (cv[i-1].first + 1 < n - k + i - 1) {')]
NEEDS = 'states told apart by their last feature only'
BREAKS = 'a state with a new feature is pruned'
RIWPRE = r"""
#include "mini.hh"
#include "hub/solver/riw.hh"
struct D : Domain {
    typedef EnvironmentOutcome Full;
    struct TransitionOutcome { Out o; State state() const { return State(o.to); } double reward() const { return -o.cost; }
        bool terminal() const { return table[o.to].terminal || table[o.to].goal; } };
    int wrong = 0;
    Space get_applicable_actions(const State &s, T = nullptr) { Space r; for (auto &a : table[s.id].acts) r.e.push_back(Event(a.id)); return r; }
    TransitionOutcome go(const State &s, const Event &a) {
        for (auto &x : table[s.id].acts) if (x.id == a.id) return {x.outs[0]};
        wrong++; return {table[s.id].acts.empty() ? Out{1, 0, s.id} : table[s.id].acts[0].outs[0]};
    }
    TransitionOutcome sample(const State &s, const Event &a, T = nullptr) { return go(s, a); }
    State reset(T = nullptr) { cur = start; return State(start); }
    TransitionOutcome step(const Event &a, T = nullptr) { auto o = go(State(cur), a); cur = o.o.to; return o; }
};
"""
EXTRA = extra(RIWPRE + r"""
int main() {
    std::vector<std::vector<int>> f = {{0, 0, 0}, {1, 0, 0}, {0, 0, 1}, {0, 0, 2}};
    table.resize(4);
    for (int i = 0; i < 4; i++) table[i].feats = f[i];
    table[0].acts = {{10, {{1, 1, 1}}}, {11, {{1, 1, 2}}}};
    table[2].acts = {{12, {{1, -8, 3}}}};
    table[1].terminal = table[3].terminal = true;
    D d;
    skdecide::RIWSolver<D, Features, skdecide::DomainStateHash, skdecide::SimulationRollout> s(d,
        [](D &dd, const State &x, const std::size_t *) { return features(dd, x); }, 100000, 200, 20);
    s.solve(State(0));
    expect("pruned", s.get_nb_of_pruned_states(), 0);
    expect("value", s.get_best_value(State(0)), 7);
    return bad;
}
""")
