#include <deque>
// C04: ConcurrentDeque - all small client programs, all interleavings, checked for linearizability against a sequential
// deque whose pop blocks while it is empty and fails once it is stopped.
#include <string>
#include <thread>
#include <vector>

#include "mcrt.hpp"
#include "multi-thread/concurrent-queue.h"

using mcrt::fail;
static std::string S(long x) { return std::to_string(x); }
struct Val {  // move-sensitive element
    int v = 0;
    Val() = default;
    explicit Val(int x) : v(x) {}
    Val(Val const& o) : v(o.v) {}
    Val(Val&& o) noexcept : v(o.v) { o.v = -1; }
    Val& operator=(Val const& o) { v = o.v; return *this; }
    Val& operator=(Val&& o) noexcept { v = o.v; o.v = -1; return *this; }
};
enum { PUSHF, PUSHB, POPF, POPB, STOP, EMPTY };
static const char* NM[] = {"emplace_front", "emplace_back", "try_pop_front", "try_pop_back", "stop", "empty"};
struct Op {
    int kind, arg = 0;
    int t0 = -1, t1 = -1;
    bool ok = false;
    int res = 0;
};
typedef hub::multi_thread::ConcurrentDeque<Val> Deque;
static int g_clock;
static int tick() {
    mcrt::Ignore i;
    return g_clock++;
}
static void exec(Deque& d, Op& o) {
    o.t0 = tick();
    switch (o.kind) {
        case PUSHF: d.emplace_front(o.arg); break;
        case PUSHB: d.emplace_back(o.arg); break;
        case POPF: { Val v; o.ok = d.try_pop_front(v); o.res = v.v; break; }
        case POPB: { Val v; o.ok = d.try_pop_back(v); o.res = v.v; break; }
        case STOP: d.stop(); break;
        case EMPTY: o.ok = d.empty(); break;
    }
    o.t1 = tick();
}
static bool lin(std::vector<Op*>& ops, unsigned done, std::vector<int>& dq, bool stopped) {
    if (done == (1u << ops.size()) - 1) return true;
    for (size_t i = 0; i < ops.size(); ++i) {
        if (done >> i & 1) continue;
        bool first = true;  // no other pending op returned before this one was called
        for (size_t j = 0; j < ops.size(); ++j)
            if (!(done >> j & 1) && j != i && ops[j]->t1 < ops[i]->t0) first = false;
        if (!first) continue;
        Op& o = *ops[i];
        auto save = dq;
        bool st = stopped, legal = true;
        switch (o.kind) {
            case PUSHF: dq.insert(dq.begin(), o.arg); break;
            case PUSHB: dq.push_back(o.arg); break;
            case POPF:
            case POPB:
                if (st) legal = !o.ok;
                else if (dq.empty()) legal = false;
                else {
                    int v = o.kind == POPF ? dq.front() : dq.back();
                    legal = o.ok && o.res == v;
                    if (o.kind == POPF) dq.erase(dq.begin());
                    else dq.pop_back();
                }
                break;
            case STOP: st = true; break;
            case EMPTY: legal = o.ok == dq.empty(); break;
        }
        if (legal && lin(ops, done | 1u << i, dq, st)) return true;
        dq = save;
    }
    return false;
}
static void go(std::vector<std::vector<Op>>& prog, std::vector<Op> const& after) {
    g_clock = 0;
    std::vector<Op> tail = after;
    {
        Deque d;
        std::vector<std::thread> th;
        for (size_t t = 1; t < prog.size(); ++t) th.emplace_back([&d, &prog, t] { for (auto& o : prog[t]) exec(d, o); });
        for (auto& o : prog[0]) exec(d, o);
        for (auto& t : th) t.join();
        for (auto& o : tail) exec(d, o);
    }
    mcrt::Ignore ig;
    std::vector<Op*> ops;
    std::string desc;
    uint64_t h = 11;
    for (auto& p : prog)
        for (auto& o : p) ops.push_back(&o);
    for (auto& o : tail) ops.push_back(&o);
    for (auto* o : ops) {
        desc += std::string(" ") + NM[o->kind] + "(" + S(o->arg) + ")@" + S(o->t0) + "-" + S(o->t1) + "->" + (o->ok ? "true," : "false,") + S(o->res);
        h = h * 41 + o->kind * 7 + o->ok * 3 + o->res;
    }
    mcrt::outcome(h);
    std::vector<int> dq;
    if (!lin(ops, 0, dq, false)) fail("deque:not-linearizable", desc);
}
static Op push(int v) { return Op{mcrt::choose(2) ? PUSHB : PUSHF, v}; }
static Op pop() { return Op{mcrt::choose(2) ? POPB : POPF}; }
// balanced: as many pops as pushes, no stop: every pop must succeed (no lost wake-up), nothing is lost
static void balanced(int shape) {
    std::vector<std::vector<Op>> p;
    switch (shape) {
        case 0: p = {{push(1)}, {pop()}}; break;
        case 1: p = {{push(1), push(2)}, {pop()}, {pop()}}; break;
        case 2: p = {{push(1)}, {push(2)}, {pop(), pop()}}; break;
        case 3: p = {{push(1), push(2)}, {pop(), pop()}}; break;
        case 4: p = {{push(1), pop()}, {push(2), pop()}}; break;
        case 5: p = {{push(1), push(2), Op{EMPTY}}, {pop(), Op{EMPTY}, pop()}}; break;
        case 6: p = {{Op{PUSHB, 1}, push(2), push(3)}, {pop(), pop()}, {pop()}}; break;
    }
    go(p, {});
}
// three elements stored, then one consumer drains sequentially: pure order check
static void drain(int) {
    std::vector<std::vector<Op>> p = {{push(1), push(2), push(3)}, {}};
    p[1].clear();
    std::vector<Op> t = {pop(), pop(), pop(), Op{EMPTY}};
    go(p, t);
}
static void stopping(int shape) {
    std::vector<std::vector<Op>> p;
    switch (shape) {
        case 0: p = {{Op{STOP}}, {pop()}}; break;
        case 1: p = {{Op{STOP}}, {pop()}, {pop()}}; break;
        case 2: p = {{push(1), Op{STOP}}, {pop(), pop()}}; break;
        case 3: p = {{push(1)}, {pop()}, {Op{STOP}}}; break;
        case 4: p = {{push(1), push(2), Op{STOP}}, {pop()}, {pop()}}; break;
    }
    go(p, {pop(), Op{EMPTY}});
    // remaining pop after stop() must fail; EMPTY is compared with the model
}
static void stop_then_pop(int) {
    std::vector<std::vector<Op>> p = {{push(1), Op{STOP}, pop(), pop(), Op{EMPTY}}};
    go(p, {});
}
static void bulk(int n) {  // many elements at once: nothing is dropped, order of both ends
    Deque d;
    std::deque<int> m;
    for (int i = 0; i < n; ++i) {
        Op o{i % 3 == 1 ? PUSHF : PUSHB, i};
        exec(d, o);
        if (o.kind == PUSHF) m.push_front(i);
        else m.push_back(i);
    }
    Op e{EMPTY};
    exec(d, e);
    if (e.ok) fail("deque:empty", "empty() with " + S(n) + " elements stored");
    for (int i = 0; i < n; ++i) {
        Op o{i % 5 == 2 ? POPB : POPF};
        exec(d, o);
        int v = o.kind == POPF ? m.front() : m.back();
        if (o.kind == POPF) m.pop_front();
        else m.pop_back();
        if (!o.ok || o.res != v) fail("deque:bulk", "pop " + S(i) + " of " + S(n) + " gave " + S(o.res) + " instead of " + S(v));
    }
    exec(d, e = Op{EMPTY});
    if (!e.ok) fail("deque:empty", "not empty() after " + S(n) + " pops");
    mcrt::outcome(n);
}
static void stream(int n) {  // one producer, one consumer, many elements
    Deque d;
    std::thread t([&] { for (int i = 0; i < n; ++i) { Op o{PUSHB, i}; exec(d, o); } });
    for (int i = 0; i < n; ++i) {
        Op o{POPF};
        exec(d, o);
        if (!o.ok || o.res != i) fail("deque:stream", "element " + S(i) + " arrived as " + S(o.res));
    }
    t.join();
    mcrt::outcome(n);
}
std::vector<mcrt::Test> mcrt::tests() {
    return {
        {"balanced_1p_1c", "1 push | 1 pop, front/back variants, 1 spurious wake-up", {3, 5}, balanced, 0, false, false, 1},
        {"balanced_2_1_1", "2 pushes | 1 pop | 1 pop", {2, 3}, balanced, 1},
        {"balanced_1_1_2", "1 push | 1 push | 2 pops", {2, 3}, balanced, 2},
        {"balanced_2_2", "2 pushes | 2 pops", {3, 5}, balanced, 3},
        {"balanced_mixed", "push,pop | push,pop", {2, 4}, balanced, 4},
        {"balanced_empty", "push,push,empty | pop,empty,pop", {2, 4}, balanced, 5},
        {"balanced_3_2_1", "3 pushes | 2 pops | 1 pop", {1, 2}, balanced, 6},
        {"drain", "3 pushes then 3 pops, sequential order", {0, 0}, drain, 0},
        {"stop_1", "stop | pop", {3, 5}, stopping, 0, false, false, 1},
        {"stop_2", "stop | pop | pop", {2, 3}, stopping, 1},
        {"stop_push", "push,stop | pop,pop", {2, 4}, stopping, 2},
        {"stop_race", "push | pop | stop", {2, 3}, stopping, 3},
        {"stop_many", "push,push,stop | pop | pop", {1, 2}, stopping, 4},
        {"stop_then_pop", "push, stop, pop, pop, empty", {0, 0}, stop_then_pop, 0},
        {"bulk", "1500 pushes at both ends, then 1500 pops at both ends", {0, 0}, bulk, 1500},
        {"stream", "one producer, one consumer, 300 elements, default schedule", {0, 0}, stream, 300, false, true},
    };
}
