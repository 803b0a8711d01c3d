// The state of the simulator and what drivers may call; the rest is in runtime.cc.
#pragma once
#include "sim.hh"
#include <ucontext.h>
#include <unistd.h>

namespace sim {

// ------------------------------------------------------------------------------------------ configuration
struct Config {
    std::uint64_t seed = 1;
    int workers = 4;
    int mode = 0;                    // 0 random switches, 1 priorities
    double p_switch = 0.1;
    int changes = 3;                 // priority change points
    int stall_fiber = -1;
    std::uint64_t stall_from = 0, stall_len = 0;
    std::uint64_t call_ns = 1000;    // duration of a domain call
    std::uint64_t jump_at = 0;       // domain call at which the clock jumps
    std::int64_t jump_ns = 0;
    std::uint64_t fail_at = 0;       // domain call that fails
    std::uint64_t fine = 0;          // mean number of memory accesses between two preemptions outside of seams
    int reuse = 0;                   // reuse freed memory
    int pad = 0;                     // random gaps between allocations
    std::uint64_t max_points = 3000000;
    bool replay = false;
    std::vector<std::pair<std::uint64_t, int>> trace;
};

struct Rng {
    std::uint64_t s = 88172645463325252ull;
    void seed(std::uint64_t x) { s = x * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; if (!s) s = 1; for (int i = 0; i < 4; i++) next(); }
    std::uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
    std::uint64_t below(std::uint64_t n) { return n ? (next() >> 33) % n : 0; }
};

struct Fiber {
    ucontext_t ctx;
    char *stack = nullptr;
    int id = 0;
    bool done = true;
    sim_lock *waiting = nullptr;
    int joining = 0;                 // children still running
    int parent = -1;
    double prio = 0;
    char eh[16];
    int quiet = 0;                   // harness code: no preemption at memory accesses
    std::function<void ()> *body = nullptr;
};

static const std::size_t STACK = 512 * 1024;
static const int MAXF = 34;

struct World {
    Config c;
    Rng sched, code, mem, fine;
    std::int64_t skip = 0;
    std::uint64_t fine_points = 0;
    int alive = 0;
    Fiber f[MAXF];
    int nf = 0, cur = -1;
    ucontext_t home;
    std::uint64_t points = 0, ns = 0, calls = 0, switches = 0, contended = 0, hash = 0, stalled = 0, choices = 0;
    int max_alive = 1;
    bool failed = false, over = false;
    char what[512];
    std::size_t tpos = 0;
    std::uint64_t tracelen = 0;
    std::pair<std::uint64_t, int> rec[200000];
    std::set<std::uint64_t> change_at;
};
World &w();

extern char outbuf[8 << 20];
extern std::size_t outlen;
extern std::uint64_t allocs;
void put(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void put_num(double v);
void put_str(const char *s);
void setup();
void run(const std::function<void ()> &main_body);
void finish_report();                // defined by the driver

struct Quiet {
    int f;
    Quiet() : f(w().cur) { if (f >= 0) w().f[f].quiet++; }
    ~Quiet() { if (f >= 0) w().f[f].quiet--; }
};

} // namespace sim
