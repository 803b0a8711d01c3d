// The simulator behind sim.hh: fibers, scheduler, arena, clock, crash reports.
#include "runtime.hh"
#include <cstdarg>
#include <cxxabi.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace sim {

void reschedule(bool must);
void access();

World &w() { static World *x = new World(); return *x; }

// ------------------------------------------------------------------------------------------------ arena
static char *const ARENA = (char *) 0x200000000000ull;
static const std::size_t ARENA_SIZE = 1ull << 30;
static std::size_t arena_top = 0, arena_high = 0;
static bool arena_on = false;
std::uint64_t allocs = 0;
struct FreeNode { FreeNode *next; };
static FreeNode *freelist[64];

void *arena_alloc(std::size_t n) {
    n = (n + 15) & ~std::size_t(15);
    if (!n) n = 16;
    allocs++;
    std::size_t k = n / 16;
    if (w().c.reuse && k < 64 && freelist[k]) {
        FreeNode *x = freelist[k];
        freelist[k] = x->next;
        memset((char *) x, 0xCD, n);
        return x;
    }
    if (w().c.pad) arena_top += 16 * w().mem.below(w().c.pad);
    if (arena_top + n + 16 > ARENA_SIZE) {
        arena_on = false;
        fail("out of memory: the run allocated one gigabyte");
    }
    char *p = ARENA + arena_top + 16;
    *(std::size_t *) (p - 16) = n;
    arena_top += n + 16;
    if (arena_top > arena_high) arena_high = arena_top;
    memset(p, 0xCD, n);
    return p;
}
void arena_free(char *p) {
    std::size_t n = *(std::size_t *) (p - 16);
    if (n & 1) { fail("memory freed twice"); return; }
    memset(p, 0xDD, n);
    if (w().c.reuse && n / 16 < 64) {
        FreeNode *x = (FreeNode *) p;
        x->next = freelist[n / 16];
        freelist[n / 16] = x;
    } else *(std::size_t *) (p - 16) = n | 1;
}
void arena_reset() {
    if (arena_high > (8u << 20)) { madvise(ARENA, arena_high, MADV_DONTNEED); arena_high = 0; }
    arena_top = 0;
    memset(freelist, 0, sizeof freelist);
}


// ------------------------------------------------------------------------------------------------ fibers
void save_eh(Fiber &x) { memcpy(x.eh, (void *) __cxxabiv1::__cxa_get_globals(), 16); }
void load_eh(Fiber &x) { memcpy((void *) __cxxabiv1::__cxa_get_globals(), x.eh, 16); }

void switch_to(int id) {
    World &W = w();
    if (id == W.cur) return;
    Fiber &a = W.f[W.cur], &b = W.f[id];
    W.cur = id;
    W.switches++;
    save_eh(a);
    load_eh(b);
    swapcontext(&a.ctx, &b.ctx);
}

void leave() {                // back to the driver for good
    World &W = w();
    W.over = true;
    arena_on = false;
    memset((void *) __cxxabiv1::__cxa_get_globals(), 0, 16);
    setcontext(&W.home);
    abort();
}

void fail(const char *what) {
    World &W = w();
    if (!W.failed) { W.failed = true; snprintf(W.what, sizeof W.what, "%s", what); }
    if (W.cur >= 0 && !W.over) leave();
}

bool runnable(int i) {
    World &W = w();
    Fiber &x = W.f[i];
    if (x.done || x.joining > 0) return false;
    if (x.waiting) return x.waiting->owner < 0 || x.waiting->owner == x.id;
    return true;
}

int pick(bool must) {
    World &W = w();
    int cand[MAXF], n = 0;
    bool filtered = false;
    for (int i = 0; i < W.nf; i++)
        if (runnable(i)) {
            if (i == W.c.stall_fiber && W.points >= W.c.stall_from && W.points < W.c.stall_from + W.c.stall_len) {
                filtered = true;
                continue;
            }
            cand[n++] = i;
        }
    if (filtered && n) W.stalled++;
    if (!n && filtered) cand[n++] = W.c.stall_fiber;
    if (!n) fail("deadlock: every thread waits for a lock");
    bool cur_ok = false;
    for (int i = 0; i < n; i++) cur_ok = cur_ok || cand[i] == W.cur;
    int dflt = cur_ok ? W.cur : cand[0];
    if (n == 1) return cand[0];
    W.choices++;
    if (W.c.replay) {
        while (W.tpos < W.c.trace.size() && W.c.trace[W.tpos].first < W.choices) W.tpos++;
        if (W.tpos < W.c.trace.size() && W.c.trace[W.tpos].first == W.choices)
            for (int i = 0; i < n; i++) if (cand[i] == W.c.trace[W.tpos].second) return cand[i];
        return dflt;
    }
    int r = dflt;
    if (W.c.mode == 1) {
        if (W.change_at.count(W.choices) && cur_ok) W.f[W.cur].prio = -1.0 - (double) W.choices;
        r = cand[0];
        for (int i = 1; i < n; i++) if (W.f[cand[i]].prio > W.f[r].prio) r = cand[i];
    } else if (!cur_ok || W.sched.unit() < W.c.p_switch) r = cand[W.sched.below(n)];
    if (r != dflt && W.tracelen < 200000) W.rec[W.tracelen++] = {W.choices, r};
    return r;
}

void note(std::uint64_t x) { w().hash = (w().hash ^ x) * 0x100000001b3ull + 0x9E37; }

void reschedule(bool must) {
    int n = pick(must);
    if (n != w().cur) { note(w().points * 64 + n); switch_to(n); }
}

// An access to plain memory in instrumented code.
static bool in_hook = false;
void access() {
    if (in_hook || !arena_on) return;
    World &W = w();
    if (W.cur < 0 || W.alive < 2 || !W.c.fine || W.f[W.cur].quiet) return;
    if (--W.skip > 0) return;
    W.skip = 1 + (std::int64_t) W.fine.below(2 * W.c.fine);
    W.fine_points++;
    W.points++;
    reschedule(false);
}

void point(int kind) {
    World &W = w();
    if (W.cur < 0) return;
    W.points++;
    W.ns += 40;
    if (W.points - W.fine_points > W.c.max_points) fail("no progress: the run does not come to an end");
    if (W.nf > 1) reschedule(false);
}

bool parallel() { return w().max_alive > 1; }
int current() { return w().cur; }
bool aborting() { return w().failed; }
std::uint64_t now_ns() { return w().ns; }
void spend(std::uint64_t ns) { w().ns += ns; }
std::uint64_t rnd() { point(5); return w().code.next() >> 20; }

void fiber_main() {
    World &W = w();
    Fiber &me = W.f[W.cur];
    try { (*me.body)(); }
    catch (const std::exception &e) {
        char b[400];
        snprintf(b, sizeof b, "terminate: an exception left a parallel algorithm: %s", e.what());
        fail(b);
    } catch (...) { fail("terminate: an exception left a parallel algorithm"); }
    Fiber &m = W.f[W.cur];
    m.done = true;
    W.alive--;
    if (m.parent >= 0) W.f[m.parent].joining--;
    else leave();
    reschedule(true);
    abort();
}

int spawn(std::function<void ()> *body, int parent) {
    World &W = w();
    int id = -1;
    for (int i = 0; i < MAXF; i++) if (W.f[i].done) { id = i; break; }
    if (id < 0) fail("harness: too many fibers");
    Fiber &x = W.f[id];
    if (!x.stack)
        x.stack = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    x.id = id;
    x.done = false;
    x.quiet = 0;
    W.alive++;
    x.waiting = nullptr;
    x.joining = 0;
    x.parent = parent;
    x.body = body;
    x.prio = W.sched.unit();
    memset(x.eh, 0, 16);
    getcontext(&x.ctx);
    x.ctx.uc_stack.ss_sp = x.stack;
    x.ctx.uc_stack.ss_size = STACK;
    x.ctx.uc_link = nullptr;
    makecontext(&x.ctx, (void (*)()) fiber_main, 0);
    if (id >= W.nf) W.nf = id + 1;
    return id;
}

void parallel_for(std::size_t n, const std::function<void (std::size_t)> &f) {
    World &W = w();
    if (!n) return;
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; i++) order[i] = i;
    for (std::size_t i = n; i > 1; i--) std::swap(order[i - 1], order[W.code.below(i)]);
    std::size_t next = 0;
    int k = (int) std::min<std::size_t>(n, W.c.workers);
    std::function<void ()> body = [&] {
        for (;;) {
            point(6);
            if (next >= n) return;
            std::size_t i = order[next++];
            f(i);
        }
    };
    int me = W.cur;
    W.f[me].joining = k;
    for (int i = 0; i < k; i++) spawn(&body, me);
    W.max_alive = std::max(W.max_alive, k);
    reschedule(true);
    while (W.f[me].joining > 0) reschedule(true);
}

void sim_lock::acquire(bool recursive) {
    point(0);
    World &W = w();
    if (W.cur < 0) return;
    if (owner == W.cur) {
        if (recursive) { depth++; return; }
        fail("deadlock: a thread locks a mutex it already holds");
    }
    if (owner >= 0) W.contended++;
    while (owner >= 0) {
        W.f[W.cur].waiting = this;
        reschedule(true);
    }
    W.f[W.cur].waiting = nullptr;
    owner = W.cur;
    depth = 1;
    point(9);
}
void sim_lock::release() {
    World &W = w();
    if (W.cur < 0) return;
    if (owner != W.cur) fail("a thread unlocks a mutex it does not hold");
    if (--depth == 0) owner = -1;
    point(1);
}
bool sim_lock::try_acquire(bool recursive) {
    point(0);
    World &W = w();
    if (owner == W.cur && recursive) { depth++; return true; }
    if (owner >= 0) return false;
    owner = W.cur;
    depth = 1;
    return true;
}

// -------------------------------------------------------------------------------------------- output
char outbuf[8 << 20];
std::size_t outlen = 0;
void put(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    outlen += vsnprintf(outbuf + outlen, sizeof outbuf - outlen - 1, fmt, ap);
    va_end(ap);
    if (outlen > sizeof outbuf - 4096) { fail("harness: output too long"); }
}
void put_num(double v) {
    if (std::isnan(v)) put("\"nan\"");
    else if (std::isinf(v)) put(v > 0 ? "\"inf\"" : "\"-inf\"");
    else put("%.17g", v);
}
void put_str(const char *s) {
    put("\"");
    for (int n = 0; *s && n < 300; s++, n++) {
        if (*s == '"' || *s == '\\') put("\\%c", *s);
        else if ((unsigned char) *s < 32) put(" ");
        else put("%c", *s);
    }
    put("\"");
}


void on_signal(int sig) {
    World &W = w();
    arena_on = false;
    W.failed = true;
    snprintf(W.what, sizeof W.what, "%s", sig == SIGSEGV || sig == SIGBUS ? "crash: invalid memory access" :
             sig == SIGVTALRM ? "hang: endless loop" : sig == SIGFPE ? "crash: arithmetic error" : "crash: abort");
    W.over = true;
    W.cur = -1;
    finish_report();
    _exit(7);
}

void setup() {
    void *p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA) { fprintf(stderr, "no arena\n"); _exit(9); }
    static char alt[65536];
    stack_t ss;
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

void run(const std::function<void ()> &main_body) {
    World &W = w();
    W.sched.seed(W.c.seed);
    W.code.seed(W.c.seed ^ 0x5bd1e995);
    W.mem.seed(W.c.seed ^ 0x1234567);
    for (auto &x : W.f) x.done = true;
    W.nf = 0;
    W.points = W.calls = W.switches = W.contended = W.hash = W.stalled = W.choices = 0;
    W.alive = 0;
    W.fine.seed(W.c.seed ^ 0x77777);
    W.skip = 1;
    W.fine_points = 0;
    W.ns = 1000000000ull;
    W.max_alive = 1;
    W.failed = W.over = false;
    W.what[0] = 0;
    W.tpos = 0;
    W.tracelen = 0;
    W.change_at.clear();
    if (W.c.mode == 1) for (int i = 0; i < W.c.changes; i++) W.change_at.insert(1 + W.sched.below(i < 2 ? 60 : 3000));
    arena_reset();
    allocs = 0;
    std::function<void ()> body = [&] {
        arena_on = true;
        main_body();
        arena_on = false;
    };
    struct itimerval tv = {{0, 0}, {6, 0}}, off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    int id = spawn(&body, -1);
    W.cur = id;
    volatile bool first = true;
    getcontext(&W.home);
    if (first) {
        first = false;
        setcontext(&W.f[id].ctx);
    }
    arena_on = false;
    W.cur = -1;
    W.over = true;
    setitimer(ITIMER_VIRTUAL, &off, nullptr);
}

} // namespace sim

extern "C" {
#define H0(n) void n(void *) { sim::access(); }
#define H1(n) void n(void *, std::size_t) { sim::access(); }
H0(__tsan_read1) H0(__tsan_read2) H0(__tsan_read4) H0(__tsan_read8) H0(__tsan_read16)
H0(__tsan_write1) H0(__tsan_write2) H0(__tsan_write4) H0(__tsan_write8) H0(__tsan_write16)
H0(__tsan_unaligned_read2) H0(__tsan_unaligned_read4) H0(__tsan_unaligned_read8) H0(__tsan_unaligned_read16)
H0(__tsan_unaligned_write2) H0(__tsan_unaligned_write4) H0(__tsan_unaligned_write8) H0(__tsan_unaligned_write16)
H0(__tsan_volatile_read1) H0(__tsan_volatile_read4) H0(__tsan_volatile_read8)
H0(__tsan_volatile_write1) H0(__tsan_volatile_write4) H0(__tsan_volatile_write8)
H1(__tsan_read_range) H1(__tsan_write_range)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void *__tsan_memcpy(void *d, const void *s, std::size_t n) { sim::access(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, std::size_t n) { sim::access(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, std::size_t n) { sim::access(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) { sim::access(); }
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *p, int) { sim::access(); return *p; } \
void __tsan_atomic##b##_store(volatile T *p, T v, int) { sim::access(); *p = v; } \
T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { sim::access(); T o = *p; *p = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { sim::access(); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { sim::access(); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { sim::access(); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { sim::access(); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { sim::access(); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { \
    sim::access(); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b_) { \
    return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, b_); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { \
    sim::access(); T o = *p; if (o == e) *p = v; return o; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
}

void *operator new(std::size_t n) {
    if (sim::arena_on) return sim::arena_alloc(n);
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept {
    if (!p) return;
    if ((char *) p >= sim::ARENA && (char *) p < sim::ARENA + sim::ARENA_SIZE) {
        if (sim::arena_on) sim::arena_free((char *) p);
        return;
    }
    free(p);
}
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { operator delete(p); }
