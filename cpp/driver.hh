// What the drivers of the planners have in common: the problem, the domain planners call, the operations, the report.
// One line of numbers on the standard input is one run, one line of JSON on the standard output is its report.
#pragma once
#include "runtime.hh"

struct Out { double p; double cost; int to; bool term; };
struct Act { int id; std::vector<Out> outs; };
struct St { bool goal, terminal; double h; std::vector<Act> acts; std::vector<int> feats; };
struct Problem {
    std::vector<St> s;
    std::vector<double> par;
    std::vector<std::pair<int, int>> ops;
    int hashmod = 0, parallel = 0, capacity = 1;
    bool slots = false;              // the domain cannot serve two calls at a time in one slot
};
inline Problem the_problem;
inline Problem &P() { return the_problem; }

inline bool &solving() { static bool b = false; return b; }   // failures happen in searches only
struct Tally { std::uint64_t failed = 0, jumps = 0, slot = 0, overlap = 0; int inside = 0, deepest = 0; };
inline Tally the_tally;
inline Tally &T() { return the_tally; }

// A call of the domain: a scheduling point before and after, some time in between, sometimes a failure.
struct Call {
    const std::size_t *tid;
    static int &busy(std::size_t i) { static int b[64]; return b[i % 64]; }
    Call(const std::size_t *t) : tid(t) {
        sim::World &W = sim::w();
        if (W.cur < 0) return;
        W.calls++;
        if (tid) {
            if (*tid >= (std::size_t) P().capacity) sim::fail("domain called with a slot number it does not have");
            if (busy(*tid)++) sim::fail("two calls of the domain at the same time in the same slot");
        }
        T().inside++;
        if (T().inside > T().deepest) T().deepest = T().inside;
        sim::point(7);
        sim::spend(W.c.call_ns);
        if (W.c.jump_at && W.calls == W.c.jump_at) { T().jumps++; W.ns += W.c.jump_ns; }
        if (W.c.fail_at && solving() && W.calls >= W.c.fail_at && !T().failed) {
            T().failed++;
            leave();
            throw std::runtime_error("injected domain failure");
        }
    }
    void leave() { T().inside--; if (tid) busy(*tid)--; tid = nullptr; }
    ~Call() { if (sim::w().cur >= 0) { if (T().inside > 0) T().inside--; if (tid) busy(*tid)--; sim::point(8); } }
};

struct State {
    int id;
    State(int i = -7) : id(i) {}
    std::string print() const { return "s" + std::to_string(id); }
    struct Hash { std::size_t operator()(const State &s) const {
        return P().hashmod ? (std::size_t) (s.id % P().hashmod) : (std::size_t) s.id * 2654435761u; } };
    struct Equal { bool operator()(const State &a, const State &b) const { return a.id == b.id; } };
};
struct Event {
    int id;
    Event(int i = -9) : id(i) {}
    std::string print() const { return "a" + std::to_string(id); }
    struct Hash { std::size_t operator()(const Event &s) const {
        return P().hashmod ? (std::size_t) (s.id % P().hashmod) : (std::size_t) s.id; } };
    struct Equal { bool operator()(const Event &a, const Event &b) const { return a.id == b.id; } };
};
struct Predicate {
    bool v;
    Predicate(bool b = false) : v(b) {}
    operator bool() const { return v; }
};
struct Value {
    double c;
    double cost() const { return c; }
    double reward() const { return -c; }
    operator double() const { return c; }
};
struct Reward {
    double c;
    double cost() const { return c; }
    double reward() const { return -c; }
};

struct Domain {
    typedef ::State State;
    typedef ::Event Event;
    typedef ::Event Action;
    typedef ::Predicate Predicate;
    typedef ::Value Value;

    struct ApplicableActionSpace {
        std::vector<Event> e;
        const std::vector<Event> &get_elements() const { return e; }
        bool empty() const { return e.empty(); }
        bool contains(const Event &a) const { for (auto &x : e) if (x.id == a.id) return true; return false; }
        Event sample() const {
            if (e.empty()) throw std::runtime_error("no action to sample");
            return e[sim::w().code.below(e.size())];
        }
    };
    struct NextState {
        Out o;
        State state() const { return State(o.to); }
        double probability() const { return o.p; }
    };
    struct NextStateDistribution {
        std::vector<NextState> v;
        const std::vector<NextState> &get_values() const { return v; }
    };
    struct EnvironmentOutcome {
        Out o;
        State state() const { return State(o.to); }
        State observation() const { return State(o.to); }
        Reward transition_value() const { return Reward{o.cost}; }
        double reward() const { return -o.cost; }
        double cost() const { return o.cost; }
        bool terminal() const { return P().s[o.to].terminal || P().s[o.to].goal; }
        bool termination() const { return terminal(); }
    };
    typedef EnvironmentOutcome TransitionOutcome;
    typedef Value TransitionValue;

    int cur = 0, initial = 0;        // state of the environment stepped without a state
    std::vector<int> slot_state;

    std::size_t get_parallel_capacity() { return P().capacity; }
    static const St &st(const State &s) {
        if (s.id < 0 || s.id >= (int) P().s.size()) { sim::fail("the domain is asked about a state it never gave"); abort(); }
        return P().s[s.id];
    }
    static const Act &act(const State &s, const Event &a) {
        for (auto &x : st(s).acts) if (x.id == a.id) return x;
        sim::fail("the domain is asked to apply an action which is not applicable");
        abort();
    }
    static const Out &draw(const Act &a) {
        double u = sim::w().code.unit();
        for (auto &o : a.outs) { if (u < o.p) return o; u -= o.p; }
        for (auto it = a.outs.rbegin(); it != a.outs.rend(); ++it) if (it->p > 0) return *it;
        return a.outs.back();
    }
    ApplicableActionSpace get_applicable_actions(const State &s, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        ApplicableActionSpace r;
        for (auto &a : st(s).acts) r.e.push_back(Event(a.id));
        return r;
    }
    State get_next_state(const State &s, const Event &a, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        return State(act(s, a).outs[0].to);
    }
    NextStateDistribution get_next_state_distribution(const State &s, const Event &a, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        NextStateDistribution r;
        for (auto &o : act(s, a).outs) r.v.push_back(NextState{o});
        return r;
    }
    double cost_of(const State &s, const Event &a, const State &n) {
        for (auto &o : act(s, a).outs) if (o.to == n.id) return o.cost;
        sim::fail("the domain is asked for the cost of a transition it does not have");
        abort();
    }
    double get_transition_cost(const State &s, const Event &a, const State &n, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        return cost_of(s, a, n);
    }
    double get_transition_reward(const State &s, const Event &a, const State &n, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        return -cost_of(s, a, n);
    }
    Predicate is_goal(const State &s, const std::size_t *t = nullptr) { sim::Quiet q; Call c(t); return Predicate(st(s).goal); }
    Predicate is_terminal(const State &s, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        return Predicate(st(s).terminal || st(s).goal);
    }
    EnvironmentOutcome sample(const State &s, const Event &a, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        return EnvironmentOutcome{draw(act(s, a))};
    }
    int &env(const std::size_t *t) {
        if (slot_state.size() < 64) slot_state.assign(64, initial);
        return slot_state[t ? *t : 63];
    }
    State reset(const std::size_t *t = nullptr) { sim::Quiet q; Call c(t); env(t) = initial; return State(initial); }
    EnvironmentOutcome step(const Event &a, const std::size_t *t = nullptr) {
        sim::Quiet q; Call c(t);
        const Out &o = draw(act(State(env(t)), a));
        env(t) = o.to;
        return EnvironmentOutcome{o};
    }
    double h(const State &s, const std::size_t *t = nullptr) { sim::Quiet q; Call c(t); return st(s).h; }
};

struct Features {
    typedef int value_type;
    std::vector<int> v;
    std::size_t size() const { return v.size(); }
    int operator[](std::size_t i) const { return v[i]; }
};
inline std::unique_ptr<Features> features(Domain &, const State &s) {
    sim::Quiet q; Call c(nullptr);
    auto f = std::make_unique<Features>();
    f->v = Domain::st(s).feats;
    return f;
}

struct Planner {
    virtual ~Planner() {}
    virtual void solve(int s) = 0;
    virtual void clear() = 0;
    virtual bool defined(int s) = 0;
    virtual int action(int s) = 0;
    virtual double value(int s) = 0;
    virtual void extra() { sim::put("null"); }   // one JSON value
    virtual void special(int, int) { sim::put("null"); }
};
std::unique_ptr<Planner> make_planner(Domain &d);

static std::size_t committed = 0;
inline double par(std::size_t i, double d = 0) { return i < P().par.size() ? P().par[i] : d; }

inline void query(Planner &p, int s) {
    using namespace sim;
    bool def = p.defined(s);
    put("[%d,", def ? 1 : 0);
    try { int a = p.action(s); put("%d,", a); } catch (const std::runtime_error &) { put("null,"); }
    try { put_num(p.value(s)); } catch (const std::runtime_error &) { put("null"); }
    put("]");
}

inline void body() {
    using namespace sim;
    Domain d;
    auto p = make_planner(d);
    std::vector<std::pair<int, int>> ops;
    int n = 0;
    for (auto op : P().ops) {
        if (n++) put(",");
        switch (op.first) {
            case 0: {
                d.initial = d.cur = op.second;
                std::string err;
                bool bad = false;
                std::uint64_t t0 = w().ns, c0 = w().calls, p0 = w().points;
                solving() = true;
                try { p->solve(op.second); }
                catch (const std::exception &e) { bad = true; err = e.what(); }
                solving() = false;
                if (bad) { T().inside = 0; for (std::size_t i = 0; i < 64; i++) Call::busy(i) = 0; p->clear(); }
                put("{\"err\":");
                if (bad) put_str(err.c_str()); else put("null");
                put(",\"ns\":%llu,\"calls\":%llu,\"points\":%llu}", (unsigned long long) (w().ns - t0),
                    (unsigned long long) (w().calls - c0), (unsigned long long) (w().points - p0));
                break;
            }
            case 1: p->clear(); put("null"); break;
            case 2: {
                put("[");
                for (std::size_t s = 0; s < P().s.size(); s++) { if (s) put(","); query(*p, (int) s); }
                put("]");
                break;
            }
            case 3: query(*p, op.second); break;
            case 4: p->extra(); break;
            default: p->special(op.first, op.second);
        }
        committed = outlen;
    }
}

namespace sim {
inline void write_all(const char *b, std::size_t n) {
    while (n) { ssize_t k = ::write(1, b, n); if (k <= 0) _exit(8); b += k; n -= (std::size_t) k; }
}
void finish_report() {
    World &W = w();
    static char tail[8 << 20];
    std::size_t n = committed;
    while (n && (outbuf[n - 1] == ',')) n--;
    std::size_t k = 0;
    k += snprintf(tail + k, 4000, "],\"fail\":");
    outlen = n;
    if (W.failed) {
        k += snprintf(tail + k, 8, "\"");
        for (const char *c = W.what; *c; c++) tail[k++] = (*c == '"' || *c == '\\' || (unsigned char) *c < 32) ? '\'' : *c;
        k += snprintf(tail + k, 8, "\"");
    } else k += snprintf(tail + k, 8, "null");
    k += snprintf(tail + k, 1000, ",\"points\":%llu,\"switches\":%llu,\"contended\":%llu,\"calls\":%llu,\"ns\":%llu,"
                  "\"hash\":\"%llx\",\"stalled\":%llu,\"choices\":%llu,\"failed\":%llu,\"jumps\":%llu,\"deepest\":%d,"
                  "\"fibers\":%d,\"allocs\":%llu,\"fine\":%llu,\"trace\":[",
                  (unsigned long long) W.points, (unsigned long long) W.switches, (unsigned long long) W.contended,
                  (unsigned long long) W.calls, (unsigned long long) (W.ns - 1000000000ull), (unsigned long long) W.hash,
                  (unsigned long long) W.stalled, (unsigned long long) W.choices, (unsigned long long) T().failed,
                  (unsigned long long) T().jumps, T().deepest, W.max_alive, (unsigned long long) allocs,
                  (unsigned long long) W.fine_points);
    for (std::uint64_t i = 0; i < W.tracelen; i++)
        k += snprintf(tail + k, 64, "%s[%llu,%d]", i ? "," : "", (unsigned long long) W.rec[i].first, W.rec[i].second);
    k += snprintf(tail + k, 8, "]}\n");
    write_all("{\"ops\":[", 8);
    write_all(outbuf, outlen);
    write_all(tail, k);
}
} // namespace sim

int main() {
    using namespace sim;
    setup();
    static char *line = nullptr;
    static size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        char *q = line;
        auto num = [&]() { return strtod(q, &q); };
        auto big = [&]() { return (std::uint64_t) strtoull(q, &q, 10); };
        auto in = [&]() { return (int) strtol(q, &q, 10); };
        Config &c = w().c;
        c = Config();
        c.seed = big(); c.workers = in(); c.mode = in(); c.p_switch = num(); c.changes = in();
        c.stall_fiber = in(); c.stall_from = big(); c.stall_len = big();
        c.call_ns = big(); c.jump_at = big(); c.jump_ns = (std::int64_t) strtoll(q, &q, 10); c.fail_at = big();
        c.fine = big(); c.reuse = in(); c.pad = in(); c.max_points = big(); c.replay = in();
        int nt = in();
        for (int i = 0; i < nt; i++) { std::uint64_t a = big(); int b = in(); c.trace.push_back({a, b}); }
        Problem &pb = P();
        pb = Problem();
        pb.parallel = in(); pb.capacity = in(); pb.hashmod = in();
        int ns = in();
        pb.s.resize(ns);
        for (auto &s : pb.s) {
            s.goal = in(); s.terminal = in(); s.h = num();
            s.acts.resize(in());
            for (auto &a : s.acts) {
                a.id = in();
                a.outs.resize(in());
                for (auto &o : a.outs) { o.p = num(); o.cost = num(); o.to = in(); o.term = false; }
            }
            s.feats.resize(in());
            for (auto &f : s.feats) f = in();
        }
        pb.par.resize(in());
        for (auto &x : pb.par) x = num();
        pb.ops.resize(in());
        for (auto &x : pb.ops) { x.first = in(); x.second = in(); }
        T() = Tally();
        for (std::size_t i = 0; i < 64; i++) Call::busy(i) = 0;
        outlen = committed = 0;
        solving() = false;
        run(body);
        finish_report();
    }
    return 0;
}
