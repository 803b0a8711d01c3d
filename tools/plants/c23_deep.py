exec(open('/verif/tools/plants/_cpp_base.py').read())
ID = 'c23-trials-without-time-limit'
PROP = 'C23'
EDITS = [(HS + 'lrtdp.hh', """               (elapsed_time(start_time) < _time_budget) &&
               (depth < _max_depth)) {
            depth++;
            visited.push(cs);""", """               (depth < _max_depth)) {
            depth++;
            visited.push(cs);""")]
NEEDS = 'a time budget shorter than a trial'
BREAKS = 'the solver goes on after its time budget'
EXTRA = extra(r"""
#include "mini.hh"
#include <thread>
#include "hub/solver/lrtdp.hh"
int main() {
    int n = 300;
    table.resize(n);
    for (int s = 0; s + 1 < n; s++) table[s].acts.push_back({0, {{1, 1, s + 1}}});
    table[n - 1].goal = table[n - 1].terminal = true;
    typedef const std::size_t *T;
    Domain d;
    int calls = 0;
    skdecide::LRTDPSolver<Domain> s(d, [](Domain &d, const State &x, T) { return d.is_goal(x); },
        [&calls](Domain &, const State &x, T) { calls++; std::this_thread::sleep_for(std::chrono::milliseconds(10)); return 0.; }, true, 100, 1000);
    s.solve(State(0));
    if (calls > 100) { printf("%d calls of 10 ms with a budget of 100 ms\n", calls); bad = 1; }
    return bad;
}
""")
