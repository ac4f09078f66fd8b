// mcrt.hpp - interface between a concurrent harness and the controlled scheduler (mcrt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace mcrt {
// ---- to be provided by the harness
struct Test {
    std::string name;                // unique
    std::string bounds;              // description of the explored space
    int preemptions[2];              // preemption bound for quick / thorough
    void (*body)(int param);         // runs as the initial thread of every explored execution
    int param;                       // parameter given to body
    bool thorough_only = false;
    bool fixed_schedule = false;     // enumerate only mcrt::choose() choices under the default schedule
    int spurious = 0;                // number of spurious wake-ups explored per execution
    uint64_t cap[2] = {400000, 8000000};   // maximum number of executions
};
std::vector<Test> tests();           // harness entry point

// ---- services for the harness, usable inside a body
void fail(std::string const& key, std::string const& what);         // record violation and end the execution
inline void check(bool ok, std::string const& key, std::string const& what = "") {
    if (!ok) fail(key, what);
}
void yield();                                  // explicit scheduling point
int choose(int n);                             // nondeterministic choice 0..n-1, enumerated by the explorer
void access(const void* p, bool write, size_t size = 8);     // annotate an access for race detection
void outcome(uint64_t h);                      // classify this execution's result
void on_end(void (*f)());                      // called after all static destructors (end of the execution)
void no_race(bool off);                        // switch race reports off/on (accesses made by oracle code)
int self();                                    // id of the running thread
void ignore_begin();                           // accesses of the calling thread are not race checked until ...
void ignore_end();
struct Ignore {
    Ignore() { ignore_begin(); }
    ~Ignore() { ignore_end(); }
};
bool active();
}  // namespace mcrt
