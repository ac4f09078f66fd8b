// I05: BulirschStoer on user-supplied ODE functions with known solutions: every combination of problem, tolerance,
// first step and history of step choices within the bounds; every accepted step is compared with the exact flow from
// the point it started at.
#include <functional>
#include "phys.hpp"
using TS = hub::Types<double>;
using Arr = TS::StateScalarArray;
using Y = std::vector<LD>;
template <size_t D, template <typename> class E = hub::ode::WorstOffender, template <typename> class In = hub::integrator::LeapFrogDKD>
using BS_ = hub::ode::BulirschStoer<In<TS>, E<TS>, hub::ode::PIDController<TS>, D>;
struct Ode {
    const char* name;
    double t0;
    Y y0;
    std::function<void(Arr const&, Arr&, double)> f;
    std::function<Y(Y const&, LD, LD)> flow;  // exact solution at t1 from y at t0
    double hmax;                              // longest step to be proposed by the history
    std::function<bool(Y const&, LD, LD)> exists = nullptr;
};
static std::vector<Ode> odes() {
    std::vector<Ode> o;
    for (double l : {1.0, 60.0, -2.0})
        o.push_back({l == 1 ? "y'=-y" : l > 1 ? "y'=-60y" : "y'=2y", 0.0, {1.0L}, [l](Arr const& y, Arr& d, double) { d[0] = -l * y[0]; },
                     [l](Y const& y, LD a, LD b) { return Y{y[0] * expl(-l * (b - a))}; }, l > 1 ? 50 : 1e3});
    o.push_back({"y'=cos 3t", 0.7, {2.0L}, [](Arr const&, Arr& d, double t) { d[0] = std::cos(3 * t); }, [](Y const& y, LD a, LD b) { return Y{y[0] + (sinl(3 * b) - sinl(3 * a)) / 3}; }, 3});
    o.push_back({"y'=t^5,t^2,1", -1.5, {3.0L, -2.0L, 10.0L}, [](Arr const&, Arr& d, double t) { d[0] = t * t * t * t * t, d[1] = t * t, d[2] = 1; },
                 [](Y const& y, LD a, LD b) { return Y{y[0] + (powl(b, 6) - powl(a, 6)) / 6, y[1] + (b * b * b - a * a * a) / 3, y[2] + b - a}; }, 1e3});
    o.push_back({"y'=-2ty", 0.25, {1.5L}, [](Arr const& y, Arr& d, double t) { d[0] = -2 * t * y[0]; }, [](Y const& y, LD a, LD b) { return Y{y[0] * expl(a * a - b * b)}; }, 10});
    o.push_back({"oscillator, 8 components of different size", 0.0, {1.0L, 0.0L, 1e-9L, 2e-9L, 5e7L, -1e7L, 0.0L, 0.0L},
                 [](Arr const& y, Arr& d, double) { for (int k = 0; k < 8; k += 2) d[k] = y[k + 1], d[k + 1] = -y[k]; },
                 [](Y const& y, LD a, LD b) {
                     Y r(8);
                     LD c = cosl(b - a), s = sinl(b - a);
                     for (int k = 0; k < 8; k += 2) r[k] = c * y[k] + s * y[k + 1], r[k + 1] = c * y[k + 1] - s * y[k];
                     return r;
                 }, 300});
    o.push_back({"x''=-x+cos 2t", 0.4, {1.0L, 0.3L}, [](Arr const& y, Arr& d, double t) { d[0] = y[1], d[1] = -y[0] + std::cos(2 * t); },
                 [](Y const& y, LD a, LD b) {  // particular solution -cos(2t)/3
                     LD u = y[0] + cosl(2 * a) / 3, v = y[1] - 2 * sinl(2 * a) / 3, c = cosl(b - a), s = sinl(b - a);
                     return Y{c * u + s * v - cosl(2 * b) / 3, c * v - s * u + 2 * sinl(2 * b) / 3};
                 }, 300});
    o.push_back({"y'=y(1-y)", 0.0, {0.2L}, [](Arr const& y, Arr& d, double) { d[0] = y[0] * (1 - y[0]); },
                 [](Y const& y, LD a, LD b) { return Y{y[0] / (y[0] + (1 - y[0]) * expl(a - b))}; }, 1.5});  // poles at distance >= pi from the real axis
    o.push_back({"y'=-1000y^3", 0.0, {1.0L}, [](Arr const& y, Arr& d, double) { d[0] = -1000 * y[0] * y[0] * y[0]; },
                 [](Y const& y, LD a, LD b) { return Y{y[0] / sqrtl(1 + 2000 * y[0] * y[0] * (b - a))}; }, 1e3, [](Y const& y, LD a, LD b) { return 1 + 2000 * y[0] * y[0] * (b - a) > 0.3; }});
    o.push_back({"Kepler e=.4", 0.0, {0.6L, 0.0L, 0.0L, sqrtl(1.4L / 0.6L)},
                 [](Arr const& y, Arr& d, double) { double r = std::hypot(y[0], y[1]), q = r * r * r; d[0] = y[2], d[1] = y[3], d[2] = -y[0] / q, d[3] = -y[1] / q; },
                 [](Y const& y, LD a, LD b) {
                     V3 x1{}, v1{}, x2{y[0], y[1], 0}, v2{y[2], y[3], 0};
                     kepler(x1, v1, x2, v2, 1.0L, 0.0L, b - a);
                     return Y{x2.x, x2.y, v2.x, v2.y};
                 }, 20});
    Y big(70);
    for (int k = 0; k < 70; ++k) big[k] = (k % 7 - 3.3L) / (1 + k);
    o.push_back({"35 oscillators of different frequency", 0.0, big,
                 [](Arr const& y, Arr& d, double) { for (int k = 0; k < 70; k += 2) d[k] = y[k + 1] * (1 + k / 70.), d[k + 1] = -y[k] * (1 + k / 70.); },
                 [](Y const& y, LD a, LD b) {
                     Y r(70);
                     for (int k = 0; k < 70; k += 2) {
                         LD c = cosl((b - a) * (1 + k / 70.)), s = sinl((b - a) * (1 + k / 70.));
                         r[k] = c * y[k] + s * y[k + 1], r[k + 1] = c * y[k + 1] - s * y[k];
                     }
                     return r;
                 }, 100});
    o.push_back({"y'=0", 1.0, {0.0L, 3.0L, -1e-300L}, [](Arr const&, Arr& d, double) { d[0] = d[1] = d[2] = 0; }, [](Y const& y, LD, LD) { return y; }, 1e3});
    return o;
}
static const auto OD = odes();
static const double RT[] = {1e-14, 1e-11, 1e-7}, AT[] = {0, 1e-13}, H0[] = {1e-3, -1e-3, 0.1, -0.1, 1e-8, 2.7, -2.7, 37, 1000};
static const double MUL[] = {1, 30, 0.01, -1};  // what the caller does with the proposed step
static std::string str(std::vector<int> const& v) { std::string s; for (int k : v) s += fmt("%g ", MUL[k]); return s; }

template <typename It> static bool run(mc::Case& c, It& it, Ode const& o, double h, std::vector<int> const& hist, double rt, double at, std::string in_, double lo, double hi) {
    Arr y;
    double t = o.t0;
    for (auto v : o.y0) y.push_back((double)v);
    double tmin = 0, tmax = 0;
    bool dim = true;
    auto f = [&](Arr const& y_, Arr& d, double tt) {
        tmin = std::min(tmin, tt), tmax = std::max(tmax, tt);
        if (y_.size() != o.y0.size() || d.size() != o.y0.size()) { dim = false; return; }
        o.f(y_, d, tt);
        c.transitions();
    };
    for (size_t k = 0; k <= hist.size(); ++k) {
        Y a;
        for (auto v : y) a.push_back(v);
        double ta = t;
        if (o.exists && h < 0 && !o.exists(a, ta, ta + (LD)h)) return true;  // the solution ceases to exist within the step
        tmin = tmax = t;
        bool wild = k ? MUL[hist[k - 1]] < 0 || MUL[hist[k - 1]] > 1 : fabs(h) > 1e-3;  // steps the controller did not propose may converge by coincidence
        double r = it.iterate(f, y, t, h), adv = t - ta;
        c.states();
        std::string w = in_ + fmt(": call %zu (step %g)", k + 1, h);
        if (!c.check(dim && y.size() == a.size(), "dimension", w)) return false;
        if (!c.check(adv * h > 0 && fabs(adv) <= fabs(h) * (1 + 1e-12) + 1e-15 * fabs(t), "time", w + fmt(": time advanced by %g", adv))) return false;
        double sl = 1e-12 * fabs(h) + 3e-13 * fabs(t);
        c.check(tmin >= std::min(ta, ta + h) - sl && tmax <= std::max(ta, ta + h) + sl, "range", w + fmt(": derivative evaluated outside the step: [%g,%g], start %g", tmin, tmax, ta));
        if (!c.check(std::isfinite(r) && r * h > 0, "next", w + fmt(": next step %g", r))) return false;
        double q = r / adv;
        if (fabs(adv) > 1e-12 * fabs(t)) c.check(q >= lo * (1 - 1e-3) && q <= hi * (1 + 1e-3), "limits", w + fmt(": next step is %g times the accepted one", q));
        Y e = o.flow(a, ta, t);
        for (size_t j = 0; j < e.size(); ++j) {
            // tolerance of the step, plus round-off (also of components coupled to this one)
            LD big = fabsl(e[j]) + fabsl(a[j]);
            if (e.size() > 1 && o.name[0] != 'y') { size_t p = j ^ 1; big = std::max(big, fabsl(e[p]) + fabsl(a[p])); if (e.size() == 4) for (auto v : e) big = std::max(big, fabsl(v)); }
            LD tol = (wild ? 3000 : 100) * (at + rt * big) + 6e-13L * big + 4e-16L * fabsl(t) * big * 5;
            if (!(fabsl(y[j] - e[j]) <= tol)) { c.fail("solution", w + fmt(": component %zu is %.15g at t=%.15g, the solution is %.15Lg (off by %.3Lg, allowed %.3Lg)", j, (double)y[j], t, e[j], fabsl(y[j] - e[j]), tol)); return false; }
        }
        if (k < hist.size()) {
            h = MUL[hist[k]] * r;
            if (fabs(h) > o.hmax) h = std::copysign(o.hmax, h);
            if (fabs(h) < 1e-9) h = std::copysign(1e-9, h);
        }
    }
    c.outcome(mc::Hasher()(y[0])(t).h);
    return true;
}
static void limits(double& lo, double& hi, int D) {
    hub::ode::PIDController<TS> k;
    k.set_limiter(0.02, 4.0);
    lo = 1e300, hi = 0;
    for (int p = 3; p <= 2 * D + 1; ++p) lo = std::min(lo, (double)k.limiter_min(p)), hi = std::max(hi, (double)k.limiter_max(p));
}
template <typename It> static void solve(mc::Case& c, uint64_t i, int prev, const char* nm) {
    mc::Dec d(i);
    auto const& o = d.pick(OD);
    double rt = d.pick(RT), at = d.pick(AT), h0 = d.pick(H0);
    auto hist = mc::seq(d.v, std::size(MUL));
    if (fabs(h0) > o.hmax) h0 = std::copysign(o.hmax, h0);
    std::string in_ = fmt("%s, %s, rtol %g atol %g, first step %g, caller multiplies the proposed steps by %s", nm, o.name, rt, at, h0, str(hist).c_str());
    c.sample(in_);
    It it;
    double lo, hi;
    limits(lo, hi, It::max_depth);
    if (prev) {  // the iterator has solved another problem (of another dimension) before
        auto const& p = OD[(i % OD.size() + prev) % OD.size()];
        it.set_rtol(1e-10), it.set_atol(0);
        if (!run(c, it, p, 0.01, {0, 0}, 1e-10, 0, in_ + fmt(" [before: %s]", p.name), lo, hi)) return;
        in_ += fmt(" [used on %s before]", p.name);
    }
    it.set_rtol(rt), it.set_atol(at);
    run(c, it, o, h0, hist, rt, at, in_, lo, hi);
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> S;
    const uint64_t base = OD.size() * 3 * 2 * 9;
    auto add = [&](const char* nm, auto* p, int q, int th) {
        using It = std::decay_t<decltype(*p)>;
        S.push_back({nm, fmt("%zu problems x 3 rtol x 2 atol x 9 first steps (+-1e-3..1000) x all sequences of <= %d (thorough %d) caller reactions {1,30,0.01,-1} to the proposed step", OD.size(), q, th),
                     [=](bool t) { return base * mc::nseq(4, t ? th : q); }, [=](mc::Case& c, uint64_t i) { solve<It>(c, i, 0, nm); }});
    };
    add("depth 7", (BS_<7>*)0, 5, 6);
    add("depth 7 KDK", (BS_<7, hub::ode::WorstOffender, hub::integrator::LeapFrogKDK>*)0, 4, 5);
    add("depth 10", (BS_<10>*)0, 4, 5);
    add("depth 12", (BS_<12>*)0, 4, 5);
    add("depth 7 RMS", (BS_<7, hub::ode::RMS>*)0, 4, 5);
    S.push_back({"reused", "every ordered pair of problems solved with one iterator x tolerances x first steps x <= 2 (3) reactions", [=](bool t) { return base * mc::nseq(4, t ? 3 : 2) * (OD.size() - 1); },
                 [=](mc::Case& c, uint64_t i) { uint64_t n = OD.size() - 1; int p = 1 + i % n; solve<BS_<7>>(c, i / n, p, "depth 7"); }});
    return mc::main(argc, argv, std::move(S));
}
