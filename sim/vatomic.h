// Force-included before the library headers: std::atomic<> used by the library becomes a
// scheduling point of the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <climits>
#include <atomic>
#include <memory>
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <utility>
#include <type_traits>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <condition_variable>
#include <future>
#include <exception>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <random>
#include <chrono>
#include <array>
#include <tuple>
#include <limits>
#include <numeric>
#include <iterator>
#include <csignal>
#include <cmath>
namespace vsim { void atomic_point(); bool cas_spurious(); }
namespace std {
template<typename T> class vatomic {
    std::atomic<T> v;
    static void p() { vsim::atomic_point(); }
    static constexpr memory_order fm(memory_order m) {
        return m == memory_order_acq_rel ? memory_order_acquire :
               m == memory_order_release ? memory_order_relaxed : m;
    }
    public:
    using value_type = T;
    vatomic() noexcept = default;
    constexpr vatomic(T x) noexcept: v(x) {}
    vatomic(const vatomic &) = delete;
    vatomic &operator=(const vatomic &) = delete;
    T operator=(T x) noexcept { p(); v.store(x); return x; }
    operator T() const noexcept { p(); return v.load(); }
    bool is_lock_free() const noexcept { return true; }
    T load(memory_order m = memory_order_seq_cst) const noexcept { p(); return v.load(m); }
    void store(T x, memory_order m = memory_order_seq_cst) noexcept { p(); v.store(x, m); }
    T exchange(T x, memory_order m = memory_order_seq_cst) noexcept { p(); return v.exchange(x, m); }
    bool compare_exchange_weak(T &e, T d, memory_order m = memory_order_seq_cst) noexcept {
        p();
        if (vsim::cas_spurious()) { e = v.load(); return false; }
        return v.compare_exchange_strong(e, d, m, fm(m));
    }
    bool compare_exchange_weak(T &e, T d, memory_order m, memory_order f) noexcept {
        p();
        if (vsim::cas_spurious()) { e = v.load(); return false; }
        return v.compare_exchange_strong(e, d, m, f);
    }
    bool compare_exchange_strong(T &e, T d, memory_order m = memory_order_seq_cst) noexcept { p(); return v.compare_exchange_strong(e, d, m, fm(m)); }
    bool compare_exchange_strong(T &e, T d, memory_order m, memory_order f) noexcept { p(); return v.compare_exchange_strong(e, d, m, f); }
    template<typename U> T fetch_add(U x, memory_order m = memory_order_seq_cst) noexcept { p(); return v.fetch_add(x, m); }
    template<typename U> T fetch_sub(U x, memory_order m = memory_order_seq_cst) noexcept { p(); return v.fetch_sub(x, m); }
    template<typename U> T fetch_or(U x, memory_order m = memory_order_seq_cst) noexcept { p(); return v.fetch_or(x, m); }
    template<typename U> T fetch_and(U x, memory_order m = memory_order_seq_cst) noexcept { p(); return v.fetch_and(x, m); }
    T operator++() noexcept { p(); return ++v; }
    T operator--() noexcept { p(); return --v; }
    T operator++(int) noexcept { p(); return v++; }
    T operator--(int) noexcept { p(); return v--; }
    template<typename U> T operator+=(U x) noexcept { p(); return v += x; }
    template<typename U> T operator-=(U x) noexcept { p(); return v -= x; }
    template<typename U> T operator|=(U x) noexcept { p(); return v |= x; }
    template<typename U> T operator&=(U x) noexcept { p(); return v &= x; }
};
using vatomic_bool = vatomic<bool>;
using vatomic_size_t = vatomic<size_t>;
using vatomic_int = vatomic<int>;
using vatomic_uint32_t = vatomic<uint32_t>;
class vatomic_flag {
    std::atomic<bool> f{false};
    public:
    vatomic_flag() noexcept = default;
    constexpr vatomic_flag(bool b) noexcept: f(b) {}
    bool test_and_set(memory_order m = memory_order_seq_cst) noexcept { vsim::atomic_point(); return f.exchange(true, m); }
    void clear(memory_order m = memory_order_seq_cst) noexcept { vsim::atomic_point(); f.store(false, m); }
};
}
#define atomic vatomic
#define atomic_bool vatomic_bool
#define atomic_size_t vatomic_size_t
#define atomic_int vatomic_int
#define atomic_uint32_t vatomic_uint32_t
#define atomic_flag vatomic_flag
