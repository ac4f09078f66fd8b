// script_engine.hpp - replaces the standard engines used by rand-generator.hpp by one whose raw outputs are chosen by
// the harness.  Include before any SpaceHub header.  After the script a fixed generator supplies further outputs, so
// that rejection loops end.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <deque>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <fstream>
#include <mutex>
#include <random>
#include <thread>
#include <vector>
namespace script {
inline thread_local std::vector<uint32_t> seq;
inline thread_local size_t pos = 0, drawn = 0;
inline thread_local uint64_t lcg = 88172645463325252ULL;
inline void set(std::vector<uint32_t> const& s) { seq = s, pos = 0, drawn = 0, lcg = 88172645463325252ULL; }
inline uint32_t next() {
    ++drawn;
    if (pos < seq.size()) return seq[pos++];
    lcg ^= lcg << 13, lcg ^= lcg >> 7, lcg ^= lcg << 17;
    return (uint32_t)(lcg >> 32);
}
// the canonical variate of two consecutive outputs
inline long double u01(uint32_t lo, uint32_t hi) { return ((long double)lo + (long double)hi * 4294967296.0L) / 18446744073709551616.0L; }
}  // namespace script
namespace std {
struct script_engine32 {
    using result_type = std::uint_fast32_t;
    script_engine32() {}
    template <typename T> explicit script_engine32(T const&) {}
    template <typename T> void seed(T const&) {}
    void discard(unsigned long long n) { while (n--) script::next(); }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()() { return script::next(); }
};
struct script_engine64 {
    using result_type = std::uint_fast64_t;
    script_engine64() {}
    template <typename T> explicit script_engine64(T const&) {}
    template <typename T> void seed(T const&) {}
    void discard(unsigned long long n) { while (n--) (*this)(); }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~(result_type)0; }
    result_type operator()() { uint64_t lo = script::next(); return lo | (uint64_t)script::next() << 32; }
};
}  // namespace std
#define mt19937 script_engine32
#define mt19937_64 script_engine64
#define default_random_engine script_engine32
