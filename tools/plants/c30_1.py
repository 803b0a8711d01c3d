exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c30-no-advice-among-losses'
PROP = 'C30'
EDITS = [(HS + 'mcts.hh', """                                             const typename Tsolver::StateNode& n) const {
        double best_value = -std::numeric_limits<double>::max();
        typename Tsolver::ActionNode* best_action = nullptr;

        solver.execution_policy().protect([&n, &best_value, &best_action, &solver](){""", """                                             const typename Tsolver::StateNode& n) const {
        double best_value = std::numeric_limits<double>::min();
        typename Tsolver::ActionNode* best_action = nullptr;

        solver.execution_policy().protect([&n, &best_value, &best_action, &solver](){""")]
NEEDS = 'a state all of whose actions have values of zero or below'
BREAKS = 'no action is advised although the search tried some'
MCTSPRE = r"""
#include "mini.hh"
#include "hub/solver/mcts.hh"
struct D : Domain {
    struct S : Space { std::mt19937 g{1}; Event sample() { return e[std::uniform_int_distribution<std::size_t>(0, e.size() - 1)(g)]; } };
    typedef EnvironmentOutcome Full;
    struct TransitionOutcome { Out o; State state() const { return State(o.to); } double reward() const { return -o.cost; }
        bool terminal() const { return table[o.to].terminal || table[o.to].goal; } };
    int deep = 0, most = 0;
    S get_applicable_actions(const State &s, T = nullptr) { S r; for (auto &a : table[s.id].acts) r.e.push_back(Event(a.id)); return r; }
    TransitionOutcome sample(const State &s, const Event &a, T = nullptr) { deep++; most = std::max(most, deep); return {draw(s, a)}; }
    State reset(T = nullptr) { cur = start; return State(start); }
    TransitionOutcome step(const Event &a, T = nullptr) { auto o = draw(State(cur), a); cur = o.to; return {o}; }
};
using Solver = skdecide::UCTSolver<D, skdecide::SequentialExecution, skdecide::DistributionTransitionMode>;
"""
EXTRA = extra(MCTSPRE + r"""
int main() {
    table.resize(3);
    table[0].acts = {{0, {{1, 3, 1}}}, {1, {{1, 2, 2}}}};
    table[1].terminal = table[2].terminal = true;
    D d;
    Solver s(d, 100000, 50, 10);
    s.solve(State(0));
    if (!s.is_solution_defined_for(State(0))) { printf("nothing advised\n"); return 1; }
    expect("best action", s.get_best_action(State(0)).id, 1);
    expect("its value", s.get_best_value(State(0)), -2);
    return bad;
}
""")
