MINI = r'''
// A table of states as the domain of a planner.
#pragma once
#include <algorithm>
#include <cmath>
#include <chrono>
#include <cstdio>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <random>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <boost/range/irange.hpp>
struct Out { double p, cost; int to; };
struct Act { int id; std::vector<Out> outs; };
struct St { bool goal, terminal; double h; std::vector<Act> acts; std::vector<int> feats; };
inline std::vector<St> table;
struct State {
    int id;
    State(int i = -1) : id(i) {}
    std::string print() const { return "s" + std::to_string(id); }
    struct Hash { std::size_t operator()(const State &s) const { return s.id; } };
    struct Equal { bool operator()(const State &a, const State &b) const { return a.id == b.id; } };
};
struct Event {
    int id;
    Event(int i = -1) : id(i) {}
    std::string print() const { return "a" + std::to_string(id); }
    struct Hash { std::size_t operator()(const Event &s) const { return s.id; } };
    struct Equal { bool operator()(const Event &a, const Event &b) const { return a.id == b.id; } };
};
struct Value { double c; double cost() const { return c; } double reward() const { return -c; } operator double() const { return c; } };
struct Domain {
    typedef ::State State;
    typedef ::Event Event;
    typedef ::Event Action;
    typedef bool Predicate;
    typedef ::Value Value;
    struct Space {
        std::vector<Event> e;
        std::vector<Event> get_elements() const { return e; }
        bool empty() const { return e.empty(); }
    };
    typedef Space ApplicableActionSpace;
    struct Next { Out o; State state() const { return State(o.to); } double probability() const { return o.p; } };
    struct Dist { std::vector<Next> v; std::vector<Next> get_values() const { return v; } };
    struct EnvironmentOutcome {
        Out o;
        State state() const { return State(o.to); }
        State observation() const { return State(o.to); }
        Value transition_value() const { return Value{o.cost}; }
        bool terminal() const { return table[o.to].terminal || table[o.to].goal; }
    };
    typedef const std::size_t *T;
    int cur = 0, start = 0, draws = 0;
    std::mt19937 gen{1};
    std::size_t get_parallel_capacity() { return 1; }
    const Act &act(const State &s, const Event &a) {
        for (auto &x : table[s.id].acts) if (x.id == a.id) return x;
        throw std::runtime_error("not applicable");
    }
    Space get_applicable_actions(const State &s, T = nullptr) { Space r; for (auto &a : table[s.id].acts) r.e.push_back(Event(a.id)); return r; }
    State get_next_state(const State &s, const Event &a, T = nullptr) { return State(act(s, a).outs[0].to); }
    Dist get_next_state_distribution(const State &s, const Event &a, T = nullptr) { Dist d; for (auto &o : act(s, a).outs) d.v.push_back(Next{o}); return d; }
    double cost(const State &s, const Event &a, const State &n) { for (auto &o : act(s, a).outs) if (o.to == n.id) return o.cost; throw std::runtime_error("no such transition"); }
    double get_transition_cost(const State &s, const Event &a, const State &n, T = nullptr) { return cost(s, a, n); }
    double get_transition_reward(const State &s, const Event &a, const State &n, T = nullptr) { return -cost(s, a, n); }
    bool is_goal(const State &s, T = nullptr) { return table[s.id].goal; }
    bool is_terminal(const State &s, T = nullptr) { return table[s.id].goal || table[s.id].terminal; }
    const Out &draw(const State &s, const Event &a) {
        auto &o = act(s, a).outs;
        double u = std::uniform_real_distribution<>()(gen);
        for (auto &x : o) { if (u < x.p) return x; u -= x.p; }
        return o.back();
    }
    EnvironmentOutcome sample(const State &s, const Event &a, T = nullptr) { return {draw(s, a)}; }
    State reset(T = nullptr) { cur = start; return State(start); }
    EnvironmentOutcome step(const Event &a, T = nullptr) { auto o = draw(State(cur), a); cur = o.to; return {o}; }
};
struct Features {
    typedef int value_type;
    std::vector<int> v;
    std::size_t size() const { return v.size(); }
    int operator[](std::size_t i) const { return v[i]; }
};
inline std::unique_ptr<Features> features(Domain &, const State &s) {
    auto f = std::make_unique<Features>();
    f->v = table[s.id].feats;
    return f;
}
inline int bad = 0;
inline void expect(const char *what, double got, double want) {
    if (!(got == want || std::fabs(got - want) < 1e-6)) { printf("%s: got %g, expected %g\n", what, got, want); bad = 1; }
}
'''
EXEC = r'''
#pragma once
namespace std {
namespace execution { struct sequenced_policy {}; struct parallel_policy {}; inline constexpr sequenced_policy seq{}; inline constexpr parallel_policy par{}; }
template <typename It, typename F> void for_each(const execution::sequenced_policy &, It a, It b, F f) { for (; a != b; ++a) f(*a); }
template <typename It, typename F> void for_each(const execution::parallel_policy &, It a, It b, F f) { for (; a != b; ++a) f(*a); }
}
'''
LOG = r'''
#pragma once
#include <string>
namespace spdlog {
namespace level { enum level_enum { debug, info }; }
inline void set_level(level::level_enum) {}
template <typename... T> inline void debug(const T &...) {}
template <typename... T> inline void info(const T &...) {}
template <typename... T> inline void warn(const T &...) {}
template <typename... T> inline void error(const T &...) {}
}
'''
CPPRUN = '''
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
tmp = tempfile.mkdtemp()
try:
    os.makedirs(tmp + '/spdlog/sinks')
    for name, to in (('log.txt', 'spdlog/spdlog.h'), ('exec.txt', 'execution'), ('mini.txt', 'mini.hh'), ('main.txt', 'main.cc')):
        shutil.copy(os.path.join(here, name), os.path.join(tmp, to))
    open(tmp + '/spdlog/sinks/stdout_color_sinks.h', 'w').close()
    open(tmp + '/config.h', 'w').write('#define HAS_EXECUTION\\n')
    subprocess.run(['g++', '-std=c++17', '-w', '-g', '-fsanitize=address', '-I' + tmp, '-I' + os.getcwd() + '/cpp/src',
                    tmp + '/main.cc', '-o', tmp + '/main', '-pthread'], check=True)
    try:
        p = subprocess.run([tmp + '/main'], timeout=20, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env={**os.environ, 'ASAN_OPTIONS': 'detect_leaks=0'})
        print(p.stdout[-1500:])
        rc = p.returncode
    except subprocess.TimeoutExpired:
        print('it does not come to an end')
        rc = 1
finally:
    shutil.rmtree(tmp)
sys.exit(1 if rc else 0)
'''
DEMO = CPPRUN


def extra(main):
    return {'mini.txt': MINI, 'exec.txt': EXEC, 'log.txt': LOG, 'main.txt': main}


HS = 'cpp/src/hub/solver/'
