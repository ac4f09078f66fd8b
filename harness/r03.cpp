// R03: sliced callbacks, every call history up to a depth
#include <cmath>
#include <string>
#include <vector>
#include "spaceHub.hpp"
#include "mc.hpp"
using mc::fmt;
using namespace hub::callback;
template <typename T>
struct Ptc {
    using Scalar = T;
    T t = 0;
    T time() const { return t; }
};
static int fires_;
static double fired_t_, fired_h_;
static const void* fired_p_;
static bool ret_;
template <typename T>
struct VoidOp {
    int count = 0;
    void operator()(Ptc<T>& p, T h) { ++count; ++fires_; fired_t_ = p.t; fired_h_ = h; fired_p_ = &p; }
};
template <typename T>
struct BoolOp {
    int count = 0;
    bool operator()(Ptc<T>& p, T h) { ++count; ++fires_; fired_t_ = p.t; fired_h_ = h; fired_p_ = &p; return ret_; }
};
// one call; checks firing, arguments and the returned value
template <typename S, typename T>
static bool call(mc::Case& c, S& s, Ptc<T>& p, bool expect, std::string const& tag, int pos) {
    int before = fires_;
    double h = 0.25 + pos;
    bool r = false, isbool = std::is_same_v<decltype(s(p, T(h))), bool>;
    ret_ = pos % 3 != 1;
    if constexpr (std::is_same_v<decltype(s(p, T(h))), bool>) r = s(p, T(h));
    else s(p, T(h));
    c.states();
    int n = fires_ - before;
    if (n != (expect ? 1 : 0)) { c.fail(expect ? "missing" : "extra", tag + fmt(": call %d at t=%.17g fired %d times, expected %d", pos, (double)p.t, n, (int)expect)); return false; }
    if (expect && (fired_t_ != (double)p.t || fired_h_ != h || fired_p_ != &p)) { c.fail("args", tag + ": the operation does not get the caller's arguments"); return false; }
    if (isbool && r != (expect ? ret_ : false)) { c.fail("return", tag + fmt(": call %d returned %d", pos, (int)r)); return false; }
    return true;
}
// ---------------------------------------------------------------- StepSlice
template <typename Op>
static void step_case(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int k = 1 + d(7), k2 = 1 + d(7), pos = d(24), copy = d(2);
    fires_ = 0;
    StepSlice<Op> s{Op{}, (size_t)k};
    Ptc<double> p;
    std::string tag = fmt("StepSlice(%d) reset to %d before call %d", k, k2, pos);
    c.sample(tag);
    int cnt = 0, cur = k;
    for (int n = 0; n < 22; ++n) {
        if (n == pos) { s.reset_slice_params(k2); cur = k2; cnt = 0; if (copy) { auto t = s; s = t; } }
        p.t = n * 0.5;
        if (!call(c, s, p, cnt % cur == 0, tag, n)) return;
        ++cnt;
    }
    c.check(s.operation().count == fires_, "operation", tag + ": operation() does not expose the wrapped operation's state");
    c.outcome(fires_);
}
static void step_default(mc::Case& c, uint64_t) {
    StepSlice<VoidOp<double>> s{VoidOp<double>{}};
    Ptc<double> p;
    for (int n = 0; n < 10; ++n) if (!call(c, s, p, true, "StepSlice()", n)) return;
}
// ---------------------------------------------------------------- TimeSlice
struct TP { double start, end; size_t n; };
static const TP TPS[] = {{0, 8, 4}, {0, 8, 8}, {-4, 4, 2}, {1, 1.75, 3}, {0, 10, 1}, {1000, 1004, 8}, {-0.5, 0, 2}, {3, 3, 5}, {0, 6, 4}};
static const int DELTA[] = {0, 1, 2, 5, 11};  // in units of a quarter of the slice interval (or of 0.25)
template <typename T, typename Op>
static void time_case(mc::Case& c, uint64_t i, int depth) {
    mc::Dec d(i);
    int a = d(std::size(TPS)), b = d(std::size(TPS)), rpos = d(depth + 1), off = d(6);
    std::vector<int> ds;
    for (int k = 0; k < depth; ++k) ds.push_back(d(5));
    if (rpos == depth && b) return;  // no reset: one representative
    fires_ = 0;
    TP P = TPS[a];
    TimeSlice<Op, T> s{Op{}, (T)P.start, (T)P.end, P.n};
    Ptc<T> p;
    double dt = (P.end - P.start) / P.n, q = dt > 0 ? dt / 4 : 0.25;
    p.t = P.start + (off - 3) * q;  // begins before, at and after the start
    int m = 0;
    std::string tag = fmt("TimeSlice(%g,%g,%zu) from %g", P.start, P.end, P.n, (double)p.t);
    if (rpos < depth) tag += fmt(" reset to (%g,%g,%zu) before call %d", TPS[b].start, TPS[b].end, TPS[b].n, rpos);
    c.sample(tag);
    for (int k = 0; k < depth; ++k) {
        if (k == rpos) {
            P = TPS[b];
            s.reset_slice_params((T)P.start, (T)P.end, P.n);
            dt = (P.end - P.start) / P.n;
            q = dt > 0 ? dt / 4 : 0.25;
            p.t = P.start + (off - 3) * q;
            m = 0;
        }
        p.t += ds[k] * q;
        double t = (double)p.t;
        bool exp = t >= P.start + m * dt && t <= P.end;
        if (!call(c, s, p, exp, tag, k)) return;
        m += exp;
    }
    c.transitions(depth);
    c.outcome(mc::Hasher()(fires_)(a).h);
}
// intervals that are not representable: times in the middle between slices only
template <typename Op>
static void time_mid(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    static const TP PS[] = {{0, 1, 10}, {0.1, 0.7, 3}, {-1e5, 1e5, 7000}, {1e-3, 2e-3, 30}, {0, 1, 5000}, {5, 1e6, 13}};
    int a = d(std::size(PS)), stride = 1 + d(9), first = d(4), dflt = d(2);
    TP P = PS[a];
    if (dflt) { if (P.n != 5000) return; }
    fires_ = 0;
    TimeSlice<Op, double> s = dflt ? TimeSlice<Op, double>{Op{}, P.start, P.end} : TimeSlice<Op, double>{Op{}, P.start, P.end, P.n};
    Ptc<double> p;
    double dt = (P.end - P.start) / P.n;
    size_t m = 0;
    std::string tag = fmt("TimeSlice(%g,%g,%zu) called every %g slices", P.start, P.end, P.n, stride / 3.0);
    for (size_t k = 0; k < 3 * P.n / stride + 30; ++k) {
        double x = (first - 2 + (double)k * stride) / 3.0 + 1.0 / 7;  // never close to an integer
        p.t = P.start + x * dt;
        bool exp = x >= (double)m && x <= (double)P.n;
        if (!call(c, s, p, exp, tag, (int)(k % 1000))) return;
        m += exp;
    }
}
// ---------------------------------------------------------------- LogTimeSlice
struct LP { double start, end; size_t n; bool exact; };
static const LP LPS[] = {{0, 16, 4, true}, {0, 4, 2, true}, {-3, 13, 4, true}, {10, 266, 8, true}, {0, 256, 2, true}, {1, 9, 1, true}, {0, 1e6, 6, false}, {2, 5, 3, false}, {-7, 100, 5, false}, {0, 1.5, 4, false}};
static const double GROW[] = {0, 0.3, 0.75, 1.5, 3.2};  // advance in units of log(interval)
template <typename Op>
static void log_case(mc::Case& c, uint64_t i, int depth) {
    mc::Dec d(i);
    int a = d(std::size(LPS)), b = d(std::size(LPS)), rpos = d(depth + 1), mode = d(3);
    std::vector<int> ds;
    for (int k = 0; k < depth; ++k) ds.push_back(d(5));
    if (rpos == depth && b) return;
    fires_ = 0;
    LP P = LPS[a];
    LogTimeSlice<Op, double> s{Op{}, P.start, P.end, P.n};
    Ptc<double> p;
    auto iv = [&] { return std::pow(P.end - P.start, 1.0 / P.n); };
    double x = mode == 0 ? -2.13 : 0.47;  // log position: time = start + interval^x ; slices at integers >= 1
    int next = 1;
    std::string tag = fmt("LogTimeSlice(%g,%g,%zu)", P.start, P.end, P.n);
    if (rpos < depth) tag += fmt(" reset to (%g,%g,%zu) before call %d", LPS[b].start, LPS[b].end, LPS[b].n, rpos);
    c.sample(tag);
    for (int k = 0; k < depth; ++k) {
        if (k == rpos) {
            P = LPS[b];
            s.reset_slice_params(P.start, P.end, P.n);
            next = 1;
            x = 0.47;
        }
        x += GROW[ds[k]];
        double xx = x;
        if (mode == 2 && P.exact) xx = std::floor(x);  // exactly on a slice time
        else if (std::fabs(xx - std::round(xx)) < 1e-6) xx += 1e-3;
        double L = P.end - P.start;
        p.t = P.start + std::pow(L, xx / P.n);
        if (mode == 2 && P.exact) { p.t = P.start + std::round(std::pow(L, xx / P.n) * 1024) / 1024; if (xx < 0) p.t = P.start + std::pow(L, xx / P.n); }
        bool exp = xx >= next && xx <= (double)P.n;
        if (!call(c, s, p, exp, tag, k)) return;
        if (exp) while (next <= xx) ++next;
    }
    c.transitions(depth);
    c.outcome(mc::Hasher()(fires_)(a).h);
}
// degenerate spans must not hang
template <typename Op>
static void log_degenerate(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    double starts[] = {0, 5, -1}, spans[] = {0, 0.25, 0.999, 1};
    double st = d.pick(starts), sp = d.pick(spans);
    size_t n = 1 + d(3);
    LogTimeSlice<Op, double> s{Op{}, st, st + sp, n};
    Ptc<double> p;
    for (int k = 0; k < 12; ++k) { p.t = st + sp * k / 8.0; s(p, 1.0); c.states(); }
}
int main(int argc, char** argv) {
    using V = VoidOp<double>;
    using B = BoolOp<double>;
    std::vector<mc::Suite> s;
    s.push_back({"StepSlice<void>", "intervals 1-7, reset to 1-7 before any of 22 calls, copied", [](bool) { return 7ull * 7 * 24 * 2; }, step_case<V>});
    s.push_back({"StepSlice<bool>", "same, bool operation with changing result", [](bool) { return 7ull * 7 * 24 * 2; }, step_case<B>});
    s.push_back({"StepSlice default", "default interval", [](bool) { return 1ull; }, step_default});
    const char* tb = "9 slice parameter sets x reset to any of them before any call or never x 6 initial times x all sequences of time advances {0,1/4,1/2,5/4,11/4 intervals} (depth 5 quick, 6 thorough)";
    auto tn = [](bool t) { return 9ull * 9 * (t ? 7 : 6) * 6 * mc::ipow(5, t ? 6 : 5); };
    s.push_back({"TimeSlice<void>", tb, tn, [](mc::Case& c, uint64_t i) { time_case<double, V>(c, i, c.thorough ? 6 : 5); }});
    s.push_back({"TimeSlice<bool>", tb, tn, [](mc::Case& c, uint64_t i) { time_case<double, B>(c, i, c.thorough ? 6 : 5); }});
    s.push_back({"TimeSlice<float>", tb, [=](bool t) { return t ? tn(true) : 9ull * 9 * 5 * 6 * mc::ipow(5, 4); }, [](mc::Case& c, uint64_t i) { time_case<float, VoidOp<float>>(c, i, c.thorough ? 6 : 4); }});
    s.push_back({"TimeSlice mid", "non-representable intervals, up to 7000 slices, strides of 1/3 to 3 slices, default slice number", [](bool) { return 6ull * 9 * 4 * 2; }, time_mid<V>});
    s.push_back({"TimeSlice mid bool", "same with a bool operation", [](bool) { return 6ull * 9 * 4 * 2; }, time_mid<B>});
    const char* lb = "10 slice parameter sets x reset before any call or never x {from before the first slice, between, exactly on slices} x all sequences of advances {0,.3,.75,1.5,3.2 slices} (depth 4 quick, 6 thorough)";
    auto ln = [](bool t) { return 100ull * (t ? 7 : 5) * 3 * mc::ipow(5, t ? 6 : 4); };
    s.push_back({"LogTimeSlice<void>", lb, ln, [](mc::Case& c, uint64_t i) { log_case<V>(c, i, c.thorough ? 6 : 4); }});
    s.push_back({"LogTimeSlice<bool>", lb, ln, [](mc::Case& c, uint64_t i) { log_case<B>(c, i, c.thorough ? 6 : 4); }});
    s.push_back({"LogTimeSlice degenerate", "spans 0,.25,.999,1: terminates at every call", [](bool) { return 36ull; }, log_degenerate<V>});
    s.push_back({"LogTimeSlice degenerate bool", "spans 0,.25,.999,1: terminates at every call", [](bool) { return 36ull; }, log_degenerate<B>});
    return mc::main(argc, argv, s);
}
