// Deterministic simulator of the threads, locks, atomics, clock, randomness and memory a planner uses.
// Everything runs in one OS thread: every worker of a parallel algorithm is a fiber, and each lock, unlock, atomic
// access, domain call, clock reading and random draw is a scheduling point decided by a seeded scheduler.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <boost/range/irange.hpp>
#include <boost/container_hash/hash.hpp>

namespace sim {

struct Abort {};                     // unwinds every fiber of a run that cannot go on

void point(int kind);                // scheduling point
void parallel_for(std::size_t n, const std::function<void (std::size_t)> &f);
std::uint64_t now_ns();
void spend(std::uint64_t ns);
std::uint64_t rnd();                 // randomness handed to the code under test
bool parallel();                     // more than one fiber is alive
void fail(const char *what);         // record a failure of the run and abort it
int current();
bool aborting();

struct sim_lock {
    int owner = -1;
    int depth = 0;
    void acquire(bool recursive);
    void release();
    bool try_acquire(bool recursive);
};

} // namespace sim

namespace std {

class sim_mutex {
    sim::sim_lock _l;
public:
    sim_mutex() {}
    sim_mutex(const sim_mutex &) = delete;
    sim_mutex &operator=(const sim_mutex &) = delete;
    void lock() { _l.acquire(false); }
    void unlock() { _l.release(); }
    bool try_lock() { return _l.try_acquire(false); }
};

class sim_recursive_mutex {
    sim::sim_lock _l;
public:
    sim_recursive_mutex() {}
    sim_recursive_mutex(const sim_recursive_mutex &) = delete;
    sim_recursive_mutex &operator=(const sim_recursive_mutex &) = delete;
    void lock() { _l.acquire(true); }
    void unlock() { _l.release(); }
    bool try_lock() { return _l.try_acquire(true); }
};

// Readers of a shared mutex are let in one at a time.
class sim_shared_mutex {
    sim::sim_lock _l;
public:
    sim_shared_mutex() {}
    sim_shared_mutex(const sim_shared_mutex &) = delete;
    sim_shared_mutex &operator=(const sim_shared_mutex &) = delete;
    void lock() { _l.acquire(false); }
    void unlock() { _l.release(); }
    bool try_lock() { return _l.try_acquire(false); }
    void lock_shared() { _l.acquire(true); }
    void unlock_shared() { _l.release(); }
    bool try_lock_shared() { return _l.try_acquire(true); }
};

template <typename T>
class sim_atomic {
    T _v;
public:
    __attribute__((no_sanitize_thread)) sim_atomic() noexcept : _v() {}
    __attribute__((no_sanitize_thread)) sim_atomic(T v) : _v(v) {}
    sim_atomic(const sim_atomic &) = delete;
    sim_atomic &operator=(const sim_atomic &) = delete;
    __attribute__((no_sanitize_thread)) T load(std::memory_order = std::memory_order_seq_cst) const { sim::point(2); return _v; }
    __attribute__((no_sanitize_thread)) void store(T v, std::memory_order = std::memory_order_seq_cst) { sim::point(3); _v = v; }
    __attribute__((no_sanitize_thread)) operator T() const { return load(); }
    __attribute__((no_sanitize_thread)) T operator=(T v) { store(v); return v; }
    __attribute__((no_sanitize_thread)) T exchange(T v, std::memory_order = std::memory_order_seq_cst) { sim::point(3); T o = _v; _v = v; return o; }
    __attribute__((no_sanitize_thread)) bool compare_exchange_strong(T &e, T v, std::memory_order = std::memory_order_seq_cst,
                                 std::memory_order = std::memory_order_seq_cst) {
        sim::point(3);
        if (_v == e) { _v = v; return true; }
        e = _v;
        return false;
    }
    __attribute__((no_sanitize_thread)) bool compare_exchange_weak(T &e, T v, std::memory_order = std::memory_order_seq_cst,
                               std::memory_order = std::memory_order_seq_cst) { return compare_exchange_strong(e, v); }
    __attribute__((no_sanitize_thread)) T fetch_add(T d, std::memory_order = std::memory_order_seq_cst) { sim::point(3); T o = _v; _v = o + d; return o; }
    __attribute__((no_sanitize_thread)) T fetch_sub(T d, std::memory_order = std::memory_order_seq_cst) { sim::point(3); T o = _v; _v = o - d; return o; }
    __attribute__((no_sanitize_thread)) T operator++() { return fetch_add(1) + 1; }
    __attribute__((no_sanitize_thread)) T operator++(int) { return fetch_add(1); }
    __attribute__((no_sanitize_thread)) T operator--() { return fetch_sub(1) - 1; }
    __attribute__((no_sanitize_thread)) T operator--(int) { return fetch_sub(1); }
    __attribute__((no_sanitize_thread)) T operator+=(T d) { return fetch_add(d) + d; }
    __attribute__((no_sanitize_thread)) T operator-=(T d) { return fetch_sub(d) - d; }
    __attribute__((no_sanitize_thread)) T operator|=(T d) { sim::point(3); return _v = _v | d; }
    __attribute__((no_sanitize_thread)) T operator&=(T d) { sim::point(3); return _v = _v & d; }
};

class sim_random_device {
public:
    typedef unsigned int result_type;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    double entropy() const { return 32; }
    result_type operator()() { return (result_type) sim::rnd(); }
};

namespace chrono {
    struct sim_clock {
        typedef std::chrono::nanoseconds duration;
        typedef duration::rep rep;
        typedef duration::period period;
        typedef std::chrono::time_point<sim_clock> time_point;
        static constexpr bool is_steady = true;
        static time_point now() {
            sim::point(4);
            return time_point(duration((rep) sim::now_ns()));
        }
    };
}
} // namespace std

// From here on the planners' sources see the simulated primitives.
#define mutex sim_mutex
#define recursive_mutex sim_recursive_mutex
#define timed_mutex sim_mutex
#define shared_mutex sim_shared_mutex
#define shared_timed_mutex sim_shared_mutex
#define atomic sim_atomic
#define random_device sim_random_device
#define high_resolution_clock sim_clock
#define steady_clock sim_clock
#define system_clock sim_clock
