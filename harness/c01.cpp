// C01: work-splitting helpers of multi-thread.hpp under the controlled scheduler.
#include <algorithm>
#include <atomic>
#include <functional>
#include <string>
#include <vector>

#include "mcrt.hpp"
#include "multi-thread/multi-thread.hpp"

namespace mt = hub::multi_thread;
using mcrt::fail;
static std::string S(size_t x) { return std::to_string(x); }

static void verify_cover(std::vector<int> const& hits, size_t n, size_t th, const char* f) {
    uint64_t h = n * 131 + th;
    for (size_t i = 0; i < n; ++i)
        if (hits[i] != 1) fail(std::string(f) + ":coverage", S(n) + " items on " + S(th) + " threads: item " + S(i) + " processed " + S(hits[i]) + " times");
    mcrt::outcome(h);
}
static void loop_body(size_t total, size_t th, int kind) {
    std::vector<int> hits(total + 1, 0);
    std::vector<size_t> dummy;
    auto f = [&](size_t b, size_t e) {
        if (b > e || e > total) fail("multi_threads_loop:range", "range [" + S(b) + "," + S(e) + ") of " + S(total) + " on " + S(th) + " threads");
        for (size_t i = b; i < e; ++i) hits[i]++;
        mcrt::yield();
    };
    if (kind == 0) mt::multi_threads_loop(total, th, f);
    else if (kind == 1) mt::multi_threads_loop(total, th, [&f](size_t b, size_t e) { f(b, e); });
    else {  // an rvalue task that owns state
        std::function<void(size_t, size_t)> g = f;
        mt::multi_threads_loop(total, th, std::move(g));
    }
    verify_cover(hits, total, th, "multi_threads_loop");
}
static void loop_grid(int maxn) {
    size_t total = mcrt::choose(maxn + 1);
    size_t th = 1 + mcrt::choose(10);
    loop_body(total, th, 0);
}
static void loop_large(int) {
    static const size_t N[] = {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4097, 10007, 65535, 65536, 65537, 100000, 1000003};
    size_t total = N[mcrt::choose(22)];
    size_t th = 1 + mcrt::choose(11);
    loop_body(total, th, 0);
}
static void loop_huge(int) {  // ranges too long to be walked through: only the sub-ranges are recorded
    static const size_t N[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 7, 10000000000ull, 1ull << 40, (1ull << 53) - 1, (1ull << 53) + 3};
    size_t total = N[mcrt::choose(10)];
    size_t th = 1 + mcrt::choose(11);
    std::vector<std::pair<size_t, size_t>> r;
    std::mutex m;
    mt::multi_threads_loop(total, th, [&](size_t b, size_t e) {
        std::lock_guard<std::mutex> l(m);
        if (b != e) r.emplace_back(b, e);
    });
    std::sort(r.begin(), r.end());
    size_t at = 0;
    for (auto& x : r) {
        if (x.first != at || x.second < x.first) fail("multi_threads_loop:coverage", S(total) + " items on " + S(th) + " threads: sub-range [" + S(x.first) + "," + S(x.second) + ") follows " + S(at));
        at = x.second;
    }
    if (at != total) fail("multi_threads_loop:coverage", S(total) + " items on " + S(th) + " threads: covered to " + S(at));
    mcrt::outcome(total * 31 + th);
}
static void loop_inter(int kind) {
    static const size_t N[] = {0, 1, 2, 3, 5, 7, 8};
    size_t total = N[mcrt::choose(7)];
    size_t th = 1 + mcrt::choose(3);
    loop_body(total, th, kind);
}
struct Rec {  // records of calls, one slot per call obtained atomically
    std::atomic<size_t> n{0};
    struct R {
        size_t idx;
        int a;
        std::string s;
        double d;
    } r[16];
    size_t other = 0;
};
static void expect(Rec& R, size_t th, bool indexed, const char* f) {
    if (R.n != th) fail(std::string(f) + ":calls", "job called " + S(R.n) + " times instead of " + S(th));
    std::vector<int> seen(th, 0);
    for (size_t i = 0; i < th; ++i) {
        auto& r = R.r[i];
        if (r.a != 42 || r.d != 2.5 || r.s != "payload of some length beyond SSO") fail(std::string(f) + ":args", "call " + S(i) + " received a=" + S(r.a) + " s='" + r.s + "'");
        if (indexed) {
            if (r.idx >= th) fail(std::string(f) + ":index", "index out of range: " + S(r.idx));
            if (seen[r.idx]++) fail(std::string(f) + ":index", "index used twice: " + S(r.idx));
        }
    }
    mcrt::outcome(th);
}
static void job_body(int kind, size_t th) {
    Rec R;
    const std::string pay = "payload of some length beyond SSO";
    auto job = [](int a, std::string s, double d, Rec& R) {
        size_t k = R.n++;
        mcrt::yield();
        if (k < 16) R.r[k] = {0, a, s, d};
    };
    auto ijob = [](size_t i, int a, std::string s, double d, Rec& R) {
        size_t k = R.n++;
        mcrt::yield();
        if (k < 16) R.r[k] = {i, a, s, d};
    };
    size_t M = mt::machine_thread_num;
    std::string lv = pay;
    switch (kind) {
        case 0: mt::multi_thread(th, job, 42, lv, 2.5, std::ref(R)); expect(R, th, false, "multi_thread"); break;
        case 1: mt::multi_thread(th, job, 42, std::string(pay), 2.5, std::ref(R)); expect(R, th, false, "multi_thread"); break;
        case 2: mt::indexed_multi_thread(th, ijob, 42, lv, 2.5, std::ref(R)); expect(R, th, true, "indexed_multi_thread"); break;
        case 3: mt::indexed_multi_thread(th, ijob, 42, std::string(pay), 2.5, std::ref(R)); expect(R, th, true, "indexed_multi_thread"); break;
        case 4: mt::auto_multi_thread(job, 42, lv, 2.5, std::ref(R)); expect(R, M, false, "auto_multi_thread"); break;
        case 5: mt::auto_indexed_multi_thread(ijob, 42, lv, 2.5, std::ref(R)); expect(R, M, true, "auto_indexed_multi_thread"); break;
        case 6: {  // callable that owns state, given as rvalue
            std::function<void(int, std::string, double, Rec&)> g = job;
            mt::multi_thread(th, std::move(g), 42, lv, 2.5, std::ref(R));
            expect(R, th, false, "multi_thread");
            break;
        }
        case 7: {
            std::function<void(size_t, int, std::string, double, Rec&)> g = ijob;
            mt::indexed_multi_thread(th, std::move(g), 42, lv, 2.5, std::ref(R));
            expect(R, th, true, "indexed_multi_thread");
            break;
        }
    }
    if (lv != pay) fail("multi_thread:lvalue-argument", "an lvalue argument was modified");
}
static void jobs(int) {
    int kind = mcrt::choose(8);
    job_body(kind, (kind == 4 || kind == 5) ? 3 : 1 + mcrt::choose(3));
}
static void jobs_many(int) {
    int kind = mcrt::choose(4);
    job_body(kind, 1 + mcrt::choose(10));
}
std::vector<mcrt::Test> mcrt::tests() {
    return {
        {"loop_grid", "multi_threads_loop: every total_len 0..60 x thread_num 1..10, default schedule", {0, 0}, loop_grid, 60, false, true},
        {"loop_large", "multi_threads_loop: 22 lengths from 63 to 1000003 x thread_num 1..11, default schedule", {0, 0}, loop_large, 0, false, true},
        {"loop_huge", "multi_threads_loop: 10 lengths from 2^31-1 to 2^53+3 x thread_num 1..11, default schedule, sub-ranges recorded instead of walked", {0, 0}, loop_huge, 0, false, true},
        {"loop_interleavings", "multi_threads_loop: total_len {0,1,2,3,5,7,8} x 1..3 threads, lvalue task", {2, 3}, loop_inter, 0},
        {"loop_interleavings_rvalue", "as loop_interleavings, rvalue lambda", {1, 2}, loop_inter, 1},
        {"loop_interleavings_function", "as loop_interleavings, rvalue std::function owning its target", {1, 2}, loop_inter, 2},
        {"jobs", "multi_thread/indexed_/auto_ variants, 1..3 threads, lvalue/rvalue callables and arguments", {1, 2}, jobs, 0},
        {"jobs_many", "multi_thread/indexed_ with 1..10 threads, default schedule", {0, 0}, jobs_many, 0, false, true},
    };
}
