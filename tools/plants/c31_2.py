exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c31-pruned-for-good'
PROP = 'C31'
EDITS = [(HS + 'riw.hh', """                    const_cast<Node&>(n).solved = false;
                    const_cast<Node&>(n).pruned = false;
                });

                // Create""", """                    const_cast<Node&>(n).solved = false;
                });

                // Create""")]
NEEDS = 'a state that is pruned with the first width, or by a first search, and new later'
BREAKS = 'what lies behind the state is never worth more than the worst return'
RIWPRE = r"""
#include "mini.hh"
#include "hub/solver/riw.hh"
struct D : Domain {
    typedef EnvironmentOutcome Full;
    struct TransitionOutcome { Out o; State state() const { return State(o.to); } double reward() const { return -o.cost; }
        bool terminal() const { return table[o.to].terminal || table[o.to].goal; } };
    int wrong = 0;
    Space get_applicable_actions(const State &s, T = nullptr) { Space r; for (auto &a : table[s.id].acts) r.e.push_back(Event(a.id)); return r; }
    TransitionOutcome go(const State &s, const Event &a) {
        for (auto &x : table[s.id].acts) if (x.id == a.id) return {x.outs[0]};
        wrong++; return {table[s.id].acts.empty() ? Out{1, 0, s.id} : table[s.id].acts[0].outs[0]};
    }
    TransitionOutcome sample(const State &s, const Event &a, T = nullptr) { return go(s, a); }
    State reset(T = nullptr) { cur = start; return State(start); }
    TransitionOutcome step(const Event &a, T = nullptr) { auto o = go(State(cur), a); cur = o.o.to; return o; }
};
"""
EXTRA = extra(RIWPRE + r"""
int main() {
    // every single feature value of 3 is known when it is reached, its pair is not
    std::vector<std::vector<int>> f = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 2}};
    table.resize(5);
    for (int i = 0; i < 5; i++) table[i].feats = f[i];
    table[0].acts = {{1, {{1, 1, 1}}}};
    table[1].acts = {{2, {{1, 1, 2}}}};
    table[2].acts = {{3, {{1, 1, 3}}}};
    table[3].acts = {{4, {{1, -50, 4}}}};
    table[4].terminal = true;
    D d;
    skdecide::RIWSolver<D, Features, skdecide::DomainStateHash, skdecide::SimulationRollout> s(d,
        [](D &dd, const State &x, const std::size_t *) { return features(dd, x); }, 100000, 200, 20);
    s.solve(State(0));
    expect("pruned in the end", s.get_nb_of_pruned_states(), 0);
    expect("value", s.get_best_value(State(0)), 47);
    return bad;
}
""")
