// I04: error estimators: every pair of states of up to 4-6 components over a value alphabet, every tolerance setting
#include <cmath>
#include <string>
#include <vector>
#include "spaceHub.hpp"
#include "mc.hpp"
using mc::fmt;
typedef long double LD;
static const double V[] = {0.0, 1.0, -1.0, 2.5e-7, -3.0e5, 0.125};
static const int NV = 6;
static const double AT[] = {0, 1e-13, 1e-3, 2.0}, RT[] = {0, 1e-14, 1e-6, 0.5};
struct In { std::vector<double> y0, y1, y2; double at, rt; };
// ---- reference norms
static LD ref_rms(In const& s) {
    LD e = 0;
    for (size_t i = 0; i < s.y0.size(); ++i) {
        LD sc = std::max(std::fabs((LD)s.y0[i]), std::fabs((LD)s.y1[i])) * s.rt + s.at;
        if (sc == 0) continue;
        LD r = std::fabs((LD)s.y1[i] - s.y2[i]) / sc;
        e += r * r;
    }
    return sqrtl(e / s.y0.size());
}
static LD ref_worst(In const& s) {
    LD e = 0;
    for (size_t i = 0; i < s.y0.size(); ++i) {
        LD sc = std::max(std::fabs((LD)s.y0[i]), std::fabs((LD)s.y1[i])) * s.rt + s.at, d = std::fabs((LD)s.y1[i] - s.y2[i]);
        if (d == 0) continue;
        e = std::max(e, sc == 0 ? (LD)INFINITY : d / sc);
    }
    return e;
}
static LD ref_worst2(In const& s) {
    LD e = 0;
    for (size_t i = 0; i < s.y0.size(); ++i) {
        LD sc = std::fabs((LD)s.y0[i]) * s.rt + s.at, d = std::fabs((LD)s.y1[i]);
        if (d == 0) continue;
        e = std::max(e, sc == 0 ? (LD)INFINITY : d / sc);
    }
    return e;
}
static LD ref_ratio(In const& s, bool three) {
    LD d = 0, sc = 0;
    for (size_t i = 0; i < s.y0.size(); ++i) {
        d = std::max(d, three ? std::fabs((LD)s.y1[i] - s.y2[i]) : std::fabs((LD)s.y1[i]));
        sc = std::max(sc, std::fabs((LD)s.y0[i]) * s.rt + s.at);
    }
    return sc == 0 ? -1 : d / sc;  // -1: undefined (nothing to compare with)
}
static bool undefined_scale(In const& s) {  // a component that differs although nothing sets its scale
    for (size_t i = 0; i < s.y0.size(); ++i)
        if (std::max(std::fabs(s.y0[i]), std::fabs(s.y1[i])) * s.rt + s.at == 0 && s.y1[i] != s.y2[i]) return true;
    return false;
}
template <typename T> static std::vector<T> conv(std::vector<double> const& v) { std::vector<T> r; for (double x : v) r.emplace_back(T(x)); return r; }
static void cmp(mc::Case& c, std::string const& what, LD got, LD want, double tol, std::string const& in) {
    c.states();
    bool ok = std::isinf(want) ? (std::isinf(got) || got > 1e30) : (std::fabs(got - want) <= tol * std::max<LD>(want, 1e-290L) && (want != 0 || got == 0));
    if (!ok) c.fail(what, what + fmt(": %.17Lg, documented norm %.17Lg, for ", got, want) + in);
}
static std::string show(In const& s) {
    std::string r = fmt("atol %g rtol %g", s.at, s.rt);
    auto p = [&](const char* n, std::vector<double> const& v) { r += fmt(" %s=(", n); for (double x : v) r += fmt("%.9g ", x); r += ")"; };
    p("y0", s.y0), p("y1", s.y1), p("y1'", s.y2);
    return r;
}
// n components, each an independent triple index
template <typename TS, typename A1, typename A2>
static void all(mc::Case& c, In const& s, double tol, int how) {
    using Sc = typename TS::Scalar;
    std::string in = show(s);
    auto y0 = conv<A1>(s.y0);
    auto y1 = conv<A2>(s.y1), y2 = conv<A2>(s.y2);
    // tolerances: constructor (how 0), setters (1), setters overriding others (2)
    auto mk = [&](auto tag) {
        using E = typename decltype(tag)::type;
        if (how == 0) return E(Sc(s.at), Sc(s.rt));
        E e = how == 1 ? E() : E(Sc(7), Sc(7));
        e.set_rtol(Sc(s.rt));
        e.set_atol(Sc(s.at));
        return e;
    };
    struct R { using type = hub::ode::RMS<TS>; };
    struct W { using type = hub::ode::WorstOffender<TS>; };
    struct M { using type = hub::ode::MaxRatioError<TS>; };
    auto r = mk(R{});
    auto w = mk(W{});
    auto m = mk(M{});
    c.check(r.atol() == Sc(s.at) && w.rtol() == Sc(s.rt) && m.atol() == Sc(s.at) && r.rtol() == Sc(s.rt) && w.atol() == Sc(s.at) && m.rtol() == Sc(s.rt), "tolerance", "accessors do not return the tolerances set: " + in);
    LD got = r.error(y0, y1, y2);
    if (!undefined_scale(s)) cmp(c, "RMS", got, ref_rms(s), tol, in);
    else c.check(got == got, "RMS", "RMS: nan for " + in);
    cmp(c, "WorstOffender", w.error(y0, y1, y2), ref_worst(s), tol, in);
    LD want = ref_ratio(s, true);
    if (want >= 0 && (std::is_same_v<A1, Sc>)) cmp(c, "MaxRatioError", m.error(conv<Sc>(s.y0), conv<Sc>(s.y1), conv<Sc>(s.y2)), want, tol, in);
    want = ref_ratio(s, false);
    if (want >= 0) cmp(c, "MaxRatioError(diff)", m.error(y0, y1), want, tol, in);
    if constexpr (std::is_same_v<A1, Sc>) cmp(c, "WorstOffender(diff)", w.error(y0, y1), ref_worst2(s), tol, in);
    c.outcome(mc::fnv(&got, 10));
}
static void ten(mc::Case& c, uint64_t i, int n, bool pert) {
    mc::Dec d(i);
    In s;
    s.at = AT[d(4)], s.rt = RT[d(4)];
    int how = d(3);
    for (int k = 0; k < n; ++k) {
        double a = V[d(NV)], b = V[d(NV)], e;
        if (pert) { static const double P[] = {0, 1e-9, -0.25}; e = b + P[d(3)] * (b != 0 ? std::fabs(b) : 1); }
        else e = V[d(NV)];
        s.y0.push_back(a), s.y1.push_back(b), s.y2.push_back(e);
    }
    c.sample(show(s));
    using D = hub::Types<double>;
    all<D, double, double>(c, s, 1e-12, how);
    all<D, hub::double_k, double>(c, s, 1e-12, how);
    all<hub::Types<long double>, long double, long double>(c, s, 1e-12, how);
}
// one component is the only one that differs / is large; every position, sizes up to 40
static void position(mc::Case& c, uint64_t i, bool lng) {
    static const int SZ[] = {48, 63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257, 511, 513, 1000, 1025};
    mc::Dec d(i);
    int n = lng ? SZ[d(16)] : 1 + d(40), pos = lng ? d(7) : d(40), kind = d(4), how = d(3);
    if (lng) pos = pos < 3 ? pos : pos == 3 ? n / 2 : pos == 4 ? n / 2 + 1 : pos == 5 ? n - 2 : n - 1;
    if (pos >= n) return;
    In s;
    s.at = AT[d(4)], s.rt = RT[d(4)];
    for (int k = 0; k < n; ++k) s.y0.push_back(1 + 0.5 * k), s.y1.push_back(-1 - 0.25 * k), s.y2.push_back(s.y1.back());
    if (kind == 0) s.y2[pos] += 0.01;
    if (kind == 1) s.y2[pos] -= 1e4, s.y1[pos] += 1e4;
    if (kind == 2) s.y0[pos] = 1e6, s.y2[n - 1 - pos] += 0.1;
    if (kind == 3) s.y1[pos] = -1e6, s.y2[pos] = -1e6 - 1;
    if (s.at == 0 && s.rt == 0) s.rt = 1e-3;
    c.sample(show(s).substr(0, 200));
    using D = hub::Types<double>;
    all<D, double, double>(c, s, 1e-12, how);
    all<D, hub::double_k, double>(c, s, 1e-12, how);
    all<hub::Types<hub::double_k>, double, double>(c, s, 1e-12, how);
}
// a result that overflowed (infinite or undefined) is never within the tolerance, whichever component and result it is
static void overflow(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int n = 1 + d(12), pos = d(12), kind = d(6), other = d(2);
    if (pos >= n) return;
    In s;
    s.at = AT[d(4)], s.rt = RT[d(4)];
    for (int k = 0; k < n; ++k) s.y0.push_back(1 + 0.5 * k), s.y1.push_back(-1 - 0.25 * k), s.y2.push_back(s.y1.back());
    if (s.at == 0 && s.rt == 0) s.rt = 1e-3;
    const double nan = std::nan(""), inf = INFINITY;
    if (kind == 0) s.y2[pos] = nan;
    if (kind == 1) s.y1[pos] = nan;
    if (kind == 2) s.y1[pos] = s.y2[pos] = nan;
    if (kind == 3) s.y2[pos] = inf;
    if (kind == 4) s.y1[pos] = -inf;
    if (kind == 5) s.y1[pos] = s.y2[pos] = inf;
    if (other) s.y2[n - 1 - pos] += 1;  // another component is far off as well
    std::string in = show(s);
    c.sample(in);
    auto go = [&](auto tag) {
        using T = typename decltype(tag)::type;
        using Sc = typename T::Scalar;
        hub::ode::RMS<T> r{Sc(s.at), Sc(s.rt)};
        hub::ode::WorstOffender<T> w{Sc(s.at), Sc(s.rt)};
        auto y0 = conv<Sc>(s.y0), y1 = conv<Sc>(s.y1), y2 = conv<Sc>(s.y2);
        c.check(!(r.error(y0, y1, y2) <= 1), "RMS overflow", "RMS reports an error within the tolerance for " + in);
        c.check(!(w.error(y0, y1, y2) <= 1), "WorstOffender overflow", "WorstOffender reports an error within the tolerance for " + in);
    };
    struct D { using type = hub::Types<double>; };
    struct L { using type = hub::Types<long double>; };
    go(D{}), go(L{});
    c.states();
    c.outcome(kind * 100 + n);
}
int main(int argc, char** argv) {
    auto pw = [](uint64_t b, int n) { uint64_t r = 48; while (n--) r *= b; return r; };
    std::vector<mc::Suite> s;
    for (int n = 1; n <= 2; ++n) s.push_back({fmt("n%d", n), "all (y0,y1,y1') over {0,+-1,2.5e-7,-3e5,1/8} x 4 atol x 4 rtol x 3 ways to set them", [=](bool) { return pw(216, n); }, [=](mc::Case& c, uint64_t i) { ten(c, i, n, false); }});
    s.push_back({"n3", "3 components: y0,y1 over the alphabet, y1' = y1 + {0,1e-9,-1/4} relative, x tolerances", [=](bool t) { return t ? pw(108, 3) : pw(108, 2) * 2; }, [=](mc::Case& c, uint64_t i) { ten(c, i, 3, true); }});
    s.push_back({"position", "1..40 components, one of them different/large at every position x tolerances", [](bool) { return 40ull * 40 * 4 * 3 * 16; }, [](mc::Case& c, uint64_t i) { position(c, i, false); }});
    s.push_back({"long", "48..1025 components (16 sizes around powers of two), one of 7 positions different/large x tolerances", [](bool) { return 16ull * 7 * 4 * 3 * 16; }, [](mc::Case& c, uint64_t i) { position(c, i, true); }});
    s.push_back({"overflow", "1..12 components, nan or inf in either or both results at every position x tolerances", [](bool) { return 12ull * 12 * 6 * 2 * 16; }, overflow});
    return mc::main(argc, argv, s);
}
