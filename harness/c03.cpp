// C03: ThreadPool under the controlled scheduler (3 workers: the scheduler reports 3 processors).
#include <atomic>
#include <functional>
#include <future>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include "mcrt.hpp"
#include "multi-thread/thread_pool.h"

using hub::multi_thread::ThreadPool;
using mcrt::fail;
static std::string S(long x) { return std::to_string(x); }

struct Log {  // never destroyed: inspected after all static destructors have run
    int runs[16];
    bool waited[16];
    bool exited;
};
static Log L;
static void at_end() {
    for (int i = 0; i < 16; ++i) {
        if (L.runs[i] > 1) fail("task:twice", "task " + S(i) + " executed " + S(L.runs[i]) + " times");
        if (L.waited[i] && L.runs[i] != 1) fail("task:lost", "task " + S(i) + " was waited on but executed " + S(L.runs[i]) + " times");
    }
}
// plain (race checked) increment: two executions of one task or a missing happens-before edge to the waiter show up
static int task_int(int i, int v) { L.runs[i]++; return v * 3; }
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };

enum { T_VALUE, T_VOID, T_THROW, T_BINDREF, T_MOVEARG, T_NESTED, T_NOWAIT, NT };
struct Pend {
    int kind, id;
    std::future<int> fi;
    std::future<void> fv;
    int cell = 0;
};
static void submit(ThreadPool& p, Pend& q) {
    int id = q.id;
    switch (q.kind) {
        case T_VALUE: q.fi = p.commit(task_int, id, 7); break;
        case T_VOID: q.fv = p.commit([id] { L.runs[id]++; }); break;
        case T_THROW: q.fi = p.commit([id]() -> int { L.runs[id]++; throw Boom("boom"); }); break;
        case T_BINDREF: q.fv = p.commit([id](int& c) { L.runs[id]++; c = 99; }, std::ref(q.cell)); break;
        case T_MOVEARG: q.fi = p.commit([id](std::string const& s) { L.runs[id]++; return (int)s.size(); }, std::string("a string that is longer than sso")); break;
        case T_NESTED: q.fv = p.commit([id, &p] { L.runs[id]++; p.commit([id] { L.runs[id + 8]++; }); }); break;
        case T_NOWAIT: q.fi = p.commit(task_int, id, 1); break;
    }
}
static void await(Pend& q) {
    switch (q.kind) {
        case T_VALUE: { int r = q.fi.get(); if (r != 21) fail("future:value", "got " + S(r)); break; }
        case T_VOID: q.fv.get(); break;
        case T_THROW: {
            bool caught = false;
            try { q.fi.get(); } catch (Boom& e) { caught = std::string(e.what()) == "boom"; }
            if (!caught) fail("future:exception", "the task's exception did not reach the waiter");
            break;
        }
        case T_BINDREF: q.fv.get(); if (q.cell != 99) fail("future:effect", "effect of a reference argument lost"); break;
        case T_MOVEARG: { int r = q.fi.get(); if (r != 32) fail("future:value", "argument damaged: " + S(r)); break; }
        case T_NESTED: q.fv.get(); break;
        case T_NOWAIT: return;
    }
    L.waited[q.id] = true;
    if (L.runs[q.id] != 1) fail("task:count", "future ready but the task ran " + S(L.runs[q.id]) + " times");
}
static void run(int ntask, int kinds, bool reverse) {
    mcrt::on_end(at_end);
    auto& p = ThreadPool::get_instance();
    if (&p != &ThreadPool::get_instance()) fail("instance", "get_instance returned two pools");
    auto* q = new Pend[ntask];  // the pool may outlive this frame: tasks not waited on may still run
    for (int i = 0; i < ntask; ++i) {
        q[i].kind = mcrt::choose(kinds);
        q[i].id = i;
    }
    for (int i = 0; i < ntask; ++i) submit(p, q[i]);
    for (int i = 0; i < ntask; ++i) await(q[reverse ? ntask - 1 - i : i]);
    uint64_t h = 1;
    mcrt::Ignore g;
    for (int i = 0; i < 16; ++i) h = h * 3 + L.runs[i];
    mcrt::outcome(h);
}
static void idle(int) { mcrt::on_end(at_end); ThreadPool::get_instance(); }
static void one(int) { run(1, NT, false); }
static void one_value(int) { run(1, 1, false); }
static void two(int) { run(2, NT, false); }
static void three(int) { run(3, 2, true); }
static void four(int) { run(4, 1, true); }
static void clients(int) {  // two client threads commit concurrently, also racing for the construction of the pool
    mcrt::on_end(at_end);
    auto* q = new Pend[2];
    for (int i = 0; i < 2; ++i) q[i].kind = i ? mcrt::choose(2) : T_VALUE, q[i].id = i;
    std::thread a([&] { submit(ThreadPool::get_instance(), q[0]); await(q[0]); });
    submit(ThreadPool::get_instance(), q[1]);
    await(q[1]);
    a.join();
    mcrt::outcome(L.runs[0] * 2 + L.runs[1]);
}
static void burst(int n) {  // all commits first, only the last is waited on, then exit
    mcrt::on_end(at_end);
    auto& p = ThreadPool::get_instance();
    std::vector<std::future<int>> f;
    for (int i = 0; i < n; ++i) f.push_back(p.commit(task_int, i, i));
    if (f.back().get() != 3 * (n - 1)) fail("future:value", "");
    L.waited[n - 1] = true;
}
// tasks that need each other: n of them, each but the last waits for the next one; there are 3 workers, so none may stay in the queue
static void dependent(int code) {
    mcrt::on_end(at_end);
    int warm = code / 10, n = code % 10;
    auto& p = ThreadPool::get_instance();
    std::vector<std::future<int>> w;
    for (int i = 0; i < warm; ++i) w.push_back(p.commit(task_int, i, i));
    for (int i = 0; i < warm; ++i) if (w[i].get() != 3 * i) fail("future:value", "");
    auto* pr = new std::promise<void>[n];
    std::vector<std::future<int>> f;
    for (int i = 0; i < n; ++i)
        f.push_back(p.commit([pr, i, n, warm] {
            if (i + 1 < n) pr[i + 1].get_future().get();
            L.runs[warm + i]++;
            pr[i].set_value();
            return i;
        }));
    for (int i = 0; i < n; ++i) {
        if (f[i].get() != i) fail("future:value", "");
        L.waited[warm + i] = true;
    }
    mcrt::outcome(n);
}
static void crowd(int n) {  // many tasks at once, from two threads, all waited on
    auto* runs = new int[n]();
    auto& p = ThreadPool::get_instance();
    auto half = [&](int from, int to) {
        std::vector<std::future<int>> f;
        for (int i = from; i < to; ++i) f.push_back(p.commit([runs, i](int v) { runs[i]++; return v + i; }, i));
        for (int i = from; i < to; ++i) {
            int r = f[i - from].get();
            if (r != 2 * i) fail("future:value", "task " + S(i) + " of " + S(n) + " gave " + S(r));
            if (runs[i] != 1) fail("task:count", "task " + S(i) + " of " + S(n) + " ran " + S(runs[i]) + " times");
        }
    };
    std::thread a([&] { half(0, n / 2); });
    half(n / 2, n);
    a.join();
    mcrt::outcome(n);
}
static void overfull(int n) {  // all workers busy, commits until far beyond the capacity of the queue: a refused task never runs, an accepted one runs once
    auto* runs = new int[n]();
    auto* state = new int[n]();  // 1 accepted, 2 refused
    auto& p = ThreadPool::get_instance();
    std::promise<void> gate;
    std::shared_future<void> open = gate.get_future().share();
    std::vector<std::future<int>> f(n);
    int refused = 0;
    for (int i = 0; i < n; ++i) {
        try {
            f[i] = p.commit([runs, i, open] { open.wait(); runs[i]++; return i; });
            state[i] = 1;
        } catch (std::runtime_error&) { state[i] = 2; ++refused; }
    }
    gate.set_value();
    for (int i = 0; i < n; ++i)
        if (state[i] == 1) {
            int r = f[i].get();
            if (r != i) fail("future:value", "task " + S(i) + " gave " + S(r));
            if (runs[i] != 1) fail("task:count", "task " + S(i) + " ran " + S(runs[i]) + " times");
        }
    // a task that is accepted afterwards runs: the queue has room again; it comes after everything that was queued
    if (p.commit([] { return 5; }).get() != 5) fail("future:value", "after the queue was full");
    for (int i = 0; i < n; ++i)
        if (state[i] == 2 && runs[i]) fail("task:refused", "task " + S(i) + " was refused with an exception and executed");
    mcrt::outcome(refused);
}
std::vector<mcrt::Test> mcrt::tests() {
    return {
        {"idle", "pool created and destroyed without a task", {2, 3}, idle, 0},
        {"one_task", "one task of every kind {value, void, exception, ref argument, moved argument, nested commit, not waited}, process exit", {0, 2}, one, 0},
        {"one_task_value", "one value task", {1, 2}, one_value, 0},
        {"one_task_spurious", "one task of every kind, one spurious wake-up at any wait", {0, 1}, one, 0, false, false, 1},
        {"two_tasks", "two tasks, all kinds", {0, 1}, two, 0},
        {"two_tasks_exit", "burst of 2 commits, the last one waited on, then exit", {1, 2}, burst, 2},
        {"three_tasks", "three tasks, futures awaited in reverse order", {0, 1}, three, 0},
        {"clients", "two client threads racing to create the pool and commit", {0, 1}, clients, 0},
        {"dependent", "two tasks of which the first waits for the second", {1, 2}, dependent, 2},
        {"dependent_three", "three tasks in a row waiting for each other, on three workers", {0, 1}, dependent, 3},
        {"dependent_after", "two tasks, then three tasks waiting for each other, on three workers", {0, 1}, dependent, 23, false, false, 0, {60000, 2000000}},
        {"dependent_spurious", "one task, then three tasks waiting for each other; one spurious wake-up at any wait", {0, 1}, dependent, 13, false, false, 1, {60000, 2000000}},
        {"burst", "burst of 6 commits, the last one waited on, then exit", {0, 1}, burst, 6, false, false, 0, {60000, 2000000}},
        {"crowd", "two clients committing 150 tasks each before waiting for any, default schedule", {0, 0}, crowd, 300, false, true},
        {"overfull", "busy workers, 1100 commits: more than the queue holds, default schedule", {0, 0}, overfull, 1100, false, true},
    };
}
