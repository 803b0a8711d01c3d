exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c31-actions-replayed-backwards'
PROP = 'C31'
EDITS = [(HS + 'riw.hh', '_action_prefix.push_back(action);', '_action_prefix.push_front(action);')]
NEEDS = 'two or more actions taken in the environment and a further search'
BREAKS = 'rollouts replay the actions taken in the wrong order'
RIWPRE = r"""
#include "mini.hh"
#include "hub/solver/riw.hh"
struct D : Domain {
    typedef EnvironmentOutcome Full;
    struct TransitionOutcome { Out o; State state() const { return State(o.to); } double reward() const { return -o.cost; }
        bool terminal() const { return table[o.to].terminal || table[o.to].goal; } };
    int wrong = 0;
    Space get_applicable_actions(const State &s, T = nullptr) { Space r; for (auto &a : table[s.id].acts) r.e.push_back(Event(a.id)); return r; }
    TransitionOutcome go(const State &s, const Event &a) {
        for (auto &x : table[s.id].acts) if (x.id == a.id) return {x.outs[0]};
        wrong++; return {table[s.id].acts.empty() ? Out{1, 0, s.id} : table[s.id].acts[0].outs[0]};
    }
    TransitionOutcome sample(const State &s, const Event &a, T = nullptr) { return go(s, a); }
    State reset(T = nullptr) { cur = start; return State(start); }
    TransitionOutcome step(const Event &a, T = nullptr) { auto o = go(State(cur), a); cur = o.o.to; return o; }
};
"""
EXTRA = extra(RIWPRE + r"""
int main() {
    table.resize(5);
    for (int i = 0; i < 5; i++) table[i].feats = {i};
    for (int i = 0; i < 4; i++) table[i].acts = {{10 + i, {{1, 1, i + 1}}}};
    table[4].terminal = true;
    D d;
    skdecide::RIWSolver<D, Features> s(d, [](D &dd, const State &x, const std::size_t *) { return features(dd, x); }, 100000, 50, 20);
    d.start = 0;
    for (int i = 0; i < 4; i++) {
        s.solve(State(i));
        expect("best action", s.get_best_action(State(i)).id, 10 + i);
    }
    expect("inapplicable actions", d.wrong, 0);
    return bad;
}
""")
