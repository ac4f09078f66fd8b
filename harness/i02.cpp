#include <memory>
// I02: adaptive iterators under every script of error estimates within the bounds.
// The iterators, integrators, systems and step controller are the real ones; the error checker (a template parameter
// of the iterator) returns scripted numbers and records what it was given, and the system records drifts and kicks.
#include <cmath>
#include <string>
#include <vector>
#include "phys.hpp"
using TS = hub::Types<double>;
using Base = hub::system::SimpleSystem<hub::particles::PointParticles<TS>, hub::DefaultForce>;
using Arr = std::vector<double>;
struct Op { char k; double h; };
struct Level { std::vector<Op> op; bool clean = true; };
static std::vector<Level> lv;         // drift/kick sequences since each restore
static Arr start_;                    // state handed to the iterator
static std::vector<double> script;    // scripted errors
static size_t pos_, calls_;
static double tail_;
static size_t low_;       // errors of levels below this one are not scripted but equal filler_
static double filler_;
static int fill_;
struct ErrCall { Arr a, b, c; size_t level; double e; };
static std::vector<ErrCall> ec;
static double atol_, rtol_;
struct TooMany {};
template <typename B>
struct Rec : B {
    using B::B;
    Rec(B const& b) : B(b) {}
    using Scalar = typename B::Scalar;
    void mark() { if (lv.empty() || !lv.back().op.empty()) lv.push_back({}); }
    template <typename T> void read_from_scalar_array(T const& a) { mark(); B::read_from_scalar_array(a); }
    void clear_increment() { mark(); B::clear_increment(); }
    void rec(char k, double h) {
        if (lv.empty()) lv.push_back({});
        if (lv.back().op.empty()) {
            typename B::StateScalarArray s;
            this->write_to_scalar_array(s);
            for (size_t i = 0; i < s.size(); ++i) if ((double)s[i] != start_[i]) lv.back().clean = false;
        }
        lv.back().op.push_back({k, h});
        if (lv.size() > 4000) throw TooMany{};
    }
    void drift(Scalar h) { rec('d', h); B::drift(h); }
    void kick(Scalar h) { rec('k', h); B::kick(h); }
};
using Sys = Rec<Base>;
template <typename A> static Arr dbl(A const& a) { Arr r; for (auto const& x : a) r.push_back((double)x); return r; }
template <typename TSet>
struct SErr {
    SPACEHUB_USING_TYPE_SYSTEM_OF(TSet);
    SErr() {}
    SErr(double a, double r) { atol_ = a, rtol_ = r; }
    void set_atol(Scalar a) { atol_ = a; }
    void set_rtol(Scalar r) { rtol_ = r; }
    double next() {
        if (++calls_ > 3000) throw TooMany{};
        size_t k = 0;  // level within the current attempt
        for (size_t i = lv.size(); i-- > 1 && lv[i].op.size() > lv[i - 1].op.size();) ++k;
        if (k < low_ && ++fill_ < 60) return filler_;
        return pos_ < script.size() ? script[pos_++] : tail_;
    }
    template <typename X, typename Y, typename Z> Scalar error(X const& x, Y const& y, Z const& z) {
        double e = next();
        ec.push_back({dbl(x), dbl(y), dbl(z), lv.size(), e});
        return e;
    }
    template <typename X, typename Y> Scalar error(X const&, Y const&) { return next(); }
};
static Base mk(int cfg) {
    using P = hub::particles::PointParticles<TS>::Particle;
    std::vector<P> p;
    if (cfg == 0) { p.push_back(P{1.0, {0.4, 0.1, 0}, {0, 0.45, 0.1}}); p.push_back(P{0.5, {-0.8, -0.2, 0.05}, {0.02, -0.9, -0.2}}); }
    else { p.push_back(P{1.0, {0, 0, 0}, {0, -0.1, 0}}); p.push_back(P{0.2, {1, 0, 0.1}, {0, 1.05, 0}}); p.push_back(P{0.1, {-3, 0.5, 0}, {0.05, -0.6, 0.1}}); }
    if (cfg == 2) { p.clear(); for (int i = 0; i < 12; ++i) p.push_back(P{1e-3, {10 * std::cos(i * 0.5), 10 * std::sin(i * 0.5) * (1 + 0.1 * i), 0.3 * i}, {300.0 * i, -200 + 40.0 * i, 77}}); }
    return Base{0.25, p};
}
template <typename S> static Arr state(S& s) { typename S::StateScalarArray a; s.write_to_scalar_array(a); return dbl(a); }
static double dist(Arr const& a, std::vector<LD> const& b) {
    if (a.size() != b.size()) return INFINITY;
    double m = 0;
    for (size_t i = 0; i < a.size(); ++i) { double d = (double)std::fabs((LD)a[i] - b[i]); if (!(d <= m)) m = d; }
    return m;
}
static std::string str(std::vector<double> const& v) { std::string s; for (double x : v) s += fmt("%.3g ", x); return s; }

template <typename It> static bool shape(Level const& l, double& H, int& n) {  // one level: palindromic, equal sums
    double d = 0, k = 0;
    int nk = 0, nd = 0;
    double mx = 0;
    for (auto& o : l.op) { (o.k == 'd' ? d : k) += o.h; (o.k == 'd' ? nd : nk)++; mx = std::max(mx, std::fabs(o.h)); }
    H = d;
    if (std::fabs(d - k) > 1e-12 * std::fabs(d)) return false;
    for (size_t i = 0, j = l.op.size() - 1; i < j; ++i, --j) if (l.op[i].k != l.op[j].k || std::fabs(l.op[i].h - l.op[j].h) > 1e-13 * mx) return false;
    n = (int)std::lround(std::fabs(H) / mx);
    return n >= 1;
}
// final limits of the controller over all orders used
static void limits(double& lo, double& hi, int omin, int omax) {
    hub::ode::PIDController<TS> c;
    c.set_limiter(0.02, 4.0);
    lo = 1e300, hi = 0;
    for (int o = omin; o <= omax; ++o) lo = std::min(lo, (double)c.limiter_min(o)), hi = std::max(hi, (double)c.limiter_max(o));
}
static void newscript(std::vector<double> s, double tail) { script = s, pos_ = calls_ = 0, tail_ = tail; }

template <typename BSI>
static void bs_case(mc::Case& c, std::vector<double> s, double h0, int cfg, const char* nm, int low) {
    newscript(s, 0.3);
    low_ = low, filler_ = 1e3, fill_ = 0;
    BSI it;
    const bool other = cfg >= 10;  // every call is given another system, of another size
    cfg %= 10;
    auto pp = std::make_unique<Sys>(static_cast<Base const&>(mk(cfg)));
    double h = h0, lo, hi;
    limits(lo, hi, 3, 2 * (int)BSI::max_depth + 1);
    std::string in = fmt("%s, first step %g, errors ", nm, h0) + (low ? fmt("(1e3 below level %d) ", low) : "") + str(s);
    c.sample(in);
    mc::Hasher hs;
    int call = 0;
    while ((pos_ < script.size() || call < 2) && call < 6) {
        if (call && other) cfg = (cfg + 1) % 3, pp = std::make_unique<Sys>(static_cast<Base const&>(mk(cfg)));
        Sys& p = *pp;
        lv.clear(), ec.clear(), start_ = state(p);
        double r;
        try { r = it.iterate(p, h); } catch (TooMany&) { c.fail("retry", in + ": does not terminate"); return; }
        ++call;
        c.states();
        c.transitions(lv.size());
        Arr fin = state(p);
        while (!lv.empty() && lv.back().op.empty()) lv.pop_back();
        // group levels into attempts
        struct At { std::vector<int> n; double H; size_t first; };
        std::vector<At> at;
        for (size_t i = 0; i < lv.size(); ++i) {
            double H; int n;
            if (!lv[i].clean) { c.fail("trace", in + fmt(": call %d: a substep sequence does not start from the given state (trace of an earlier attempt)", call)); return; }
            if (!shape<BSI>(lv[i], H, n)) { c.fail("shape", in + fmt(": call %d: substeps are not a symmetric composition of the step", call)); return; }
            if (at.empty() || n <= at.back().n.back()) at.push_back({{n}, H, i});
            else {
                if (std::fabs(H - at.back().H) > 1e-12 * std::fabs(H)) { c.fail("shape", in + fmt(": call %d: substep sequences of one attempt span different steps", call)); return; }
                at.back().n.push_back(n);
            }
        }
        if (at.empty() || ec.empty()) { c.fail("attempt", in + ": no attempt or no error estimate"); return; }
        // every retry has the sign of the step and is smaller if all errors of the rejected attempt exceeded the tolerance
        size_t e = 0;
        for (size_t a = 0; a < at.size(); ++a) {
            bool allbig = true;
            for (; e < ec.size() && ec[e].level <= at[a].first + at[a].n.size(); ++e) if (ec[e].e <= 1) allbig = false;
            if (a + 1 < at.size() && allbig && !(std::fabs(at[a + 1].H) < std::fabs(at[a].H))) c.fail("retry", in + fmt(": call %d: attempt with step %g rejected, retried with %g", call, at[a].H, at[a + 1].H));
            if (!std::isfinite(at[a].H) || at[a].H * h <= 0) c.fail("retry", in + fmt(": call %d: attempted step %g, given %g", call, at[a].H, h));
        }
        if (std::fabs(at[0].H - h) > 1e-12 * std::fabs(h)) c.fail("first", in + fmt(": call %d: first attempt uses step %g, given %g", call, at[0].H, h));
        if (!(ec.back().e <= 1)) c.fail("accept", in + fmt(": call %d: accepted with error estimate %g", call, ec.back().e));
        // committed state = extrapolation of the accepted attempt's levels
        At& A_ = at.back();
        double adv = A_.H;
        size_t N = A_.n.size(), D = start_.size();
        std::vector<std::vector<LD>> T(N), U;
        for (size_t l = 0; l < N; ++l) {
            Base q = mk(cfg);
            typename Base::StateScalarArray sa;
            q.write_to_scalar_array(sa);
            for (size_t i = 0; i < D; ++i) sa[i] = start_[i];
            q.read_from_scalar_array(sa);
            for (auto& o : lv[A_.first + l].op) if (o.k == 'd') q.drift(o.h); else q.kick(o.h);
            Arr f = state(q);
            T[l].resize(D);
            for (size_t i = 0; i < D; ++i) T[l][i] = f[i];
        }
        U.assign(T.begin() + (N > 1), T.end());
        auto nev = [&](std::vector<std::vector<LD>> t, std::vector<int> n) {
            for (size_t j = 1; j < t.size(); ++j)
                for (size_t l = t.size() - 1; l >= j; --l)
                    for (size_t i = 0; i < D; ++i) {
                        LD r2 = (LD)n[l] * n[l] / ((LD)n[l - j] * n[l - j]);
                        t[l][i] += (t[l][i] - t[l - 1][i]) / (r2 - 1);
                    }
            return t.back();
        };
        auto best = nev(T, A_.n), prev = nev(U, std::vector<int>(A_.n.begin() + (N > 1), A_.n.end()));
        double d = dist(fin, best);
        if (!(d <= 1e-10)) c.fail("state", in + fmt(": call %d: committed state differs by %.3g from the extrapolated result of the accepted attempt (step %g, %zu levels)", call, d, adv, N));
        // the error estimate compared the two last orders, against the given state
        auto& L = ec.back();
        auto rel = [&](Arr const& x, std::vector<LD> const& want) {  // the checker may be given states or increments
            double a = dist(x, want);
            std::vector<LD> w = want;
            for (size_t i = 0; i < D; ++i) w[i] -= start_[i];
            return std::min(a, dist(x, w));
        };
        if (dist(L.a, std::vector<LD>(start_.begin(), start_.end())) != 0) c.fail("scale", in + fmt(": call %d: error scaled by another state", call));
        L.b.resize(D), L.c.resize(D);
        bool ok = (rel(L.b, prev) <= 1e-10 && rel(L.c, best) <= 1e-10) || (rel(L.c, prev) <= 1e-10 && rel(L.b, best) <= 1e-10);
        if (!ok) c.fail("estimate", in + fmt(": call %d: error estimate does not compare the two highest orders (%.3g %.3g)", call, rel(L.b, prev), rel(L.c, best)));
        if (!std::isfinite(r) || r == 0 || r * h <= 0) c.fail("next", in + fmt(": call %d: next step %g after a step %g", call, r, adv));
        else if (r / adv < lo * (1 - 1e-9) || r / adv > hi * (1 + 1e-9)) c.fail("limits", in + fmt(": call %d: next step is %g times the accepted one, limits are [%g,%g]", call, r / adv, lo, hi));
        hs(A_.n.size())(at.size());
        h = r;
    }
    c.outcome(hs.h);
}
template <typename I> using BSK = hub::ode::BulirschStoer<I, SErr<TS>, hub::ode::PIDController<TS>>;
template <typename I, size_t M> using BSM = hub::ode::BulirschStoer<I, SErr<TS>, hub::ode::PIDController<TS>, M>;
using DKD = hub::integrator::LeapFrogDKD<TS>;
using KDK = hub::integrator::LeapFrogKDK<TS>;
static const std::vector<double> EA = {0, 1e-9, 0.9, 1.4, 40, 1e5, 1e16, 3e3, 1e300};
static void bs_any(mc::Case& c, int v, std::vector<double> s, double h, int cfg, int low = 0) {
    switch (v) {
        case 0: bs_case<BSK<DKD>>(c, s, h, cfg, "BS DKD 7", low); break;
        case 1: bs_case<BSK<KDK>>(c, s, h, cfg, "BS KDK 7", low); break;
        case 2: bs_case<BSM<DKD, 10>>(c, s, h, cfg, "BS DKD 10", low); break;
        case 3: bs_case<BSM<KDK, 12>>(c, s, h, cfg, "BS KDK 12", low); break;
    }
}
// Sequent -------------------------------------------------------------------------------------------------------
template <template <typename> class I> struct RecI : I<TS> {
    using I<TS>::order;
};
template <typename SI, int order>
static void seq_case(mc::Case& c, std::vector<double> s, double h0, int cfg, const char* nm, int reps) {
    static hub::ode::PIDController<TS> pid;
    pid.set_safe_guards(0.7, 1), pid.set_limiter(0.02, 4.0);
    newscript(s, 0);
    low_ = 0;
    SI it;
    Sys p(static_cast<Base const&>(mk(cfg)));
    std::string in = fmt("%s, first step %g, raw errors ", nm, h0) + str(s);
    c.sample(in);
    double h = h0;
    mc::Hasher hs;
    for (int call = 1; call <= reps; ++call) {
        lv.clear(), ec.clear(), start_ = state(p);
        double r;
        try { r = it.iterate(p, h); } catch (TooMany&) { c.fail("retry", in + ": does not terminate"); return; }
        c.states();
        c.transitions(lv.size());
        Arr fin = state(p);
        while (!lv.empty() && lv.back().op.empty()) lv.pop_back();
        if (ec.empty() || lv.empty()) { c.fail("attempt", in + ": no error estimate"); return; }
        std::vector<int> n;
        std::vector<std::vector<LD>> T;
        for (size_t i = 0; i < lv.size(); ++i) {
            double d = 0, k = 0;
            for (auto& o : lv[i].op) (o.k == 'd' ? d : k) += o.h;
            if (!lv[i].clean) { c.fail("trace", in + fmt(": call %d: attempt %zu does not start from the given state", call, i)); return; }
            if (std::fabs(d - h) > 1e-12 * std::fabs(h) || std::fabs(k - h) > 1e-12 * std::fabs(h)) { c.fail("shape", in + fmt(": call %d: attempt %zu advances %.17g/%.17g instead of %.17g", call, i, d, k, h)); return; }
            // number of equal substeps: ops repeat with period P (boundary drifts/kicks not merged)
            size_t O = lv[i].op.size(), P = 1;
            for (; P <= O; ++P) {
                if (O % P) continue;
                bool ok = true;
                for (size_t j = P; j < O && ok; ++j) ok = lv[i].op[j].k == lv[i].op[j - P].k && lv[i].op[j].h == lv[i].op[j - P].h;
                if (ok) break;
            }
            n.push_back((int)(O / P));
            Base q = mk(cfg);
            typename Base::StateScalarArray sa;
            q.write_to_scalar_array(sa);
            for (size_t j = 0; j < start_.size(); ++j) sa[j] = start_[j];
            q.read_from_scalar_array(sa);
            for (auto& o : lv[i].op) if (o.k == 'd') q.drift(o.h); else q.kick(o.h);
            Arr f = state(q);
            T.push_back(std::vector<LD>(f.begin(), f.end()));
        }
        for (size_t i = 1; i < n.size(); ++i) if (n[i] <= n[i - 1]) c.fail("retry", in + fmt(": call %d: attempt with %d substeps follows %d", call, n[i], n[i - 1]));
        if (lv.size() != ec.size() + 1) c.fail("attempt", in + fmt(": %zu attempts, %zu error estimates", lv.size(), ec.size()));
        double scaled = NAN;
        for (size_t i = 0; i < ec.size() && i + 1 < lv.size(); ++i) {
            auto& E = ec[i];
            if (dist(E.a, std::vector<LD>(start_.begin(), start_.end())) != 0) c.fail("scale", in + fmt(": call %d: error scaled by another state", call));
            bool ok = (dist(E.b, T[i]) <= 1e-13 && dist(E.c, T[i + 1]) <= 1e-13) || (dist(E.c, T[i]) <= 1e-13 && dist(E.b, T[i + 1]) <= 1e-13);
            if (!ok) c.fail("estimate", in + fmt(": call %d: estimate %zu does not compare consecutive attempts", call, i));
            double thr = std::pow((double)n[i + 1] / n[i], order) - 1;
            scaled = E.e / thr;
            bool last = i + 1 == ec.size();
            if (!last && scaled < 1 - 1e-9) c.fail("accept", in + fmt(": call %d: attempt %zu met the tolerance (%g) but was rejected", call, i, scaled));
            if (last && scaled > 1 + 1e-9 && ec.size() < 10) c.fail("accept", in + fmt(": call %d: accepted with error %g after %zu attempts", call, scaled, ec.size()));
        }
        if (ec.size() > 10) c.fail("accept", in + fmt(": call %d: %zu retries", call, ec.size()));
        double d = dist(fin, T.back());
        if (!(d <= 1e-12)) c.fail("state", in + fmt(": call %d: committed state differs by %.3g from the last attempt's result", call, d));
        double want = h * pid.next_with_limiter(order, scaled);
        if (!(std::fabs(r - want) <= 1e-9 * std::fabs(want))) c.fail("next", in + fmt(": call %d: next step %g, control law for the accepted error %g gives %g", call, r, scaled, want));
        hs(n.size());
        h = r;
        if (std::fabs(h) > 1.5) h = std::copysign(1.5, h);
    }
    c.outcome(hs.h);
}
namespace in = hub::integrator;
template <typename I> using SQ = hub::ode::SequentOdeIterator<I, SErr<TS>, hub::ode::PIDController<TS>>;
// script of scaled errors -> raw errors for an order-p method with the attempts 1,2,4,6,8,...
static std::vector<double> raw(std::vector<double> s, int p) {
    static const double ns[] = {1, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22};
    size_t k = 0;
    for (auto& x : s) {
        double sc = x;
        x *= std::pow(ns[k + 1] / ns[k], p) - 1;
        k = (sc <= 1 || k == 9) ? 0 : k + 1;
    }
    return s;
}
static const std::vector<double> SA = {0, 0.97, 1.03, 1e8, 1e-12, 30};
static void seq_any(mc::Case& c, int v, std::vector<double> s, double h, int cfg, int reps) {
    switch (v) {
        case 0: seq_case<SQ<in::Symplectic2nd<TS>>, 2>(c, raw(s, 2), h, cfg, "Sequent 2nd", reps); break;
        case 1: seq_case<SQ<in::Symplectic4th<TS>>, 4>(c, raw(s, 4), h, cfg, "Sequent 4th", reps); break;
        case 2: seq_case<SQ<in::Symplectic6th<TS>>, 6>(c, raw(s, 6), h, cfg, "Sequent 6th", reps); break;
        case 3: seq_case<SQ<in::Symplectic8th<TS>>, 8>(c, raw(s, 8), h, cfg, "Sequent 8th", reps); break;
        case 4: seq_case<SQ<in::Symplectic10th<TS>>, 10>(c, raw(s, 10), h, cfg, "Sequent 10th", reps); break;
    }
}
// Kepler reference --------------------------------------------------------------------------------------------------
static Base two(double e, double q, bool third = false) {  // periapsis distance chosen for a=1
    using P = hub::particles::PointParticles<TS>::Particle;
    double m1 = 1 / (1 + q), m2 = q / (1 + q), r = 1 + e, v = std::sqrt((1 - e) / (1 + e));
    std::vector<P> p{P{m1, {-r * m2, 0, 0}, {0.03, -v * m2, 0.01}}, P{m2, {r * m1, 0, 0}, {0.03, v * m1 * 0.8, v * m1 * 0.6 + 0.01}}};
    // make the relative velocity transverse with components (0,.8,.6)
    p[0].vel.y = -v * m2 * 0.8, p[0].vel.z = -v * m2 * 0.6 + 0.01;
    if (third) p.push_back(P{0.0, {37, -24, 9}, {0.05, 0.08, 0.03}});  // massless and far away
    return Base{0.0, p};
}
template <typename S> static double kerr(S const& p, Base const& q0, LD t) {
    V3 x1 = v3(q0.pos(0)), x2 = v3(q0.pos(1)), v1 = v3(q0.vel(0)), v2 = v3(q0.vel(1));
    kepler(x1, v1, x2, v2, (LD)q0.mass(0), (LD)q0.mass(1), t);
    auto d = [](V3 a, V3 b) { return (double)normp(a - b); };
    return std::max(std::max(d(x1, v3(p.pos(0))), d(x2, v3(p.pos(1)))), std::max(d(v1, v3(p.vel(0))), d(v2, v3(p.vel(1)))));
}
// IAS15 with scripted step ratios -------------------------------------------------------------------------------------
static std::vector<double> ratio_;
static size_t rpos_;
template <typename T>
struct SCtrl {
    SPACEHUB_USING_TYPE_SYSTEM_OF(T);
    hub::ode::PIDController<T> c;
    void set_safe_guards(Scalar a, Scalar b) { c.set_safe_guards(a, b); }
    void set_limiter(Scalar a, Scalar b) { c.set_limiter(a, b); }
    Scalar limiter(size_t o, Scalar x) const { return c.limiter(o, x); }
    Scalar limiter(Scalar x) const { return c.limiter(x); }
    Scalar limiter_min(size_t o) const { return c.limiter_min(o); }
    Scalar limiter_max(size_t o) const { return c.limiter_max(o); }
    Scalar limiter_min() const { return c.limiter_min(); }
    Scalar limiter_max() const { return c.limiter_max(); }
    Scalar nx() const { return rpos_ < ratio_.size() ? ratio_[rpos_++] : 1.0; }
    Scalar next(size_t, Scalar) const { return nx(); }
    template <typename U> Scalar next(size_t, U const&) const { return nx(); }
    template <typename U> Scalar next_with_limiter(size_t o, U const&) const { return c.limiter(o, nx()); }
};
using Rad = hub::ode::IAS15<hub::integrator::GaussRadau<TS>, hub::ode::MaxRatioError<TS>, SCtrl<TS>>;
static const std::vector<double> RA = {0.05, 0.2, 0.26, 0.6, 1.0, 2.5, 70};
static void rad_case(mc::Case& c, std::vector<double> s, double h0, double e) {
    Base q0 = two(e, 0.3), p = q0;
    Rad it;
    ratio_ = s, rpos_ = 0;
    std::string in = fmt("IAS15, e=%g, first step %g, controller ratios ", e, h0) + str(s);
    c.sample(in);
    double h = h0, t = 0;
    mc::Hasher hs;
    for (int call = 1; call <= 2 || (rpos_ < ratio_.size() && call < 7); ++call) {
        size_t r0 = rpos_;
        double r = it.iterate(p, h), acc = h, last = 1;
        // replay the controller's ratios: rejected while <= 1/4
        size_t used = rpos_ - r0;
        for (size_t i = 0; i < used; ++i) {
            last = ratio_[r0 + i];
            if (last <= 0.25) acc *= last;
            else if (i + 1 != used) c.fail("accept", in + fmt(": call %d: ratio %g rejected", call, last));
        }
        if (used && rpos_ <= ratio_.size() && last <= 0.25 && rpos_ < ratio_.size()) c.fail("accept", in + fmt(": call %d: accepted a step whose ratio is %g", call, last));
        if (used == 0 || last <= 0.25) last = 1;
        c.states();
        c.transitions(used + 1);
        if (std::fabs(p.time() - t - acc) > 1e-13 * std::max(1.0, std::fabs(t))) { c.fail("time", in + fmt(": call %d: time advanced by %.17g, accepted step %.17g", call, p.time() - t, acc)); return; }
        t = p.time();
        double want = acc * std::min(4.0, std::max(0.25, last));
        if (!(std::fabs(r - want) <= 1e-12 * std::fabs(want))) c.fail("next", in + fmt(": call %d: next step %.17g, expected %.17g", call, r, want));
        double tol = 2e-7 + 1e-3 * std::pow(std::fabs(acc) / (1 - e) / 1.2, 14);
        double d = kerr(p, q0, t);
        if (std::fabs(acc) < 0.45 * (1 - e)) { if (getenv("DBG")) fprintf(stderr, "D %g %g\n", acc, d); if (!(d <= tol)) c.fail("state", in + fmt(": call %d: state after the accepted step %g is off the Kepler orbit by %.3g", call, acc, d)); }
        else return;  // too coarse to be judged by the analytic solution
        h = r;
        hs(used);
        if (std::fabs(h) > 0.4 * (1 - e)) return;  // steps this long need not converge (retry limit)
    }
    c.outcome(hs.h);
}
// the real iterators, real error checkers and controllers: long and short first steps, both directions ------------------
template <typename It> static void real_case(mc::Case& c, const char* nm, double h0, double e, double q, int reuse, double tol, int omin, int omax) {
    std::string in = fmt("%s, e=%g, mass ratio %g, first step %g, iterator %s", nm, e, q, h0, reuse == 0 ? "fresh" : reuse == 1 ? "used on 12 bodies before" : reuse == 2 ? "used on another orbit before" : "used on two bodies before, then with a third, massless one");
    c.sample(in);
    Base q0 = two(e, q, reuse == 3), p = q0;
    It it;
    if (reuse == 1) { Base w = mk(2); double hh = 0.01; for (int i = 0; i < 2; ++i) hh = it.iterate(w, hh); }
    if (reuse >= 2) { Base w = mk(0); double hh = 0.3; for (int i = 0; i < 2; ++i) hh = it.iterate(w, hh); }
    double h = h0, lo, hi;
    limits(lo, hi, omin, omax);
    mc::Hasher hs;
    double t = 0;
    for (int call = 1; call <= 4; ++call) {
        double r = it.iterate(p, h), adv = p.time() - t;
        t = p.time();
        c.states();
        c.transitions();
        if (!std::isfinite(r) || r * h0 <= 0) { c.fail("next", in + fmt(": call %d: next step %g", call, r)); return; }
        if (adv * h0 <= 0 || std::fabs(adv) > std::fabs(h) * (1 + 1e-9)) c.fail("time", in + fmt(": call %d: time advanced by %g, step given %g", call, adv, h));
        if (r / adv < lo * (1 - 1e-6) || r / adv > hi * (1 + 1e-6)) c.fail("limits", in + fmt(": call %d: next step is %g times the accepted one, limits are [%g,%g]", call, r / adv, lo, hi));
        double d = kerr(p, q0, t);
        hs(adv);
        if (!(d <= tol * (1 + 30 * std::fabs(t)))) c.fail("state", in + fmt(": call %d: state at t=%g is off the Kepler orbit by %.3g", call, t, d));
        h = r;
    }
    c.outcome(hs.h);
}
using RBS = hub::ode::BulirschStoer<DKD, hub::ode::WorstOffender<TS>, hub::ode::PIDController<TS>>;
using RBK = hub::ode::BulirschStoer<KDK, hub::ode::WorstOffender<TS>, hub::ode::PIDController<TS>>;
using RB2 = hub::ode::BulirschStoer<KDK, hub::ode::RMS<TS>, hub::ode::PIDController<TS>, 10>;
using RIA = hub::ode::IAS15<hub::integrator::GaussRadau<TS>, hub::ode::MaxRatioError<TS>, hub::ode::PIDController<TS>>;
static const double RH[] = {1e-6, 1e-3, 0.03, 0.3, 1, 3, 12, 50}, RE[] = {0, 0.3, 0.7, 0.9}, RQ[] = {1, 0.01, 1e-6};

int main(int argc, char** argv) {
    std::vector<mc::Suite> S;
    const int L = 7;  // letters used by the quick tier
    static auto D = [](bool t) { return t ? 7 : 6; };
    S.push_back({"bs/first", "Bulirsch-Stoer on the first step and after: every sequence of <= 6 (thorough 7) error estimates over {0,1e-9,0.9,1.4,40,1e5,1e16}; DKD/KDK, depth 7/10/12; +-step",
                 [](bool t) { return mc::nseq(L, D(t) - 1) * 8; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int v = d(4), sg = d(2);
                     std::vector<double> s;
                     for (int k : mc::seq(d.v, L)) s.push_back(EA[k]);
                     bs_any(c, v, s, sg ? -0.02 : 0.02, v & 1);
                 }});
    S.push_back({"bs/rank", "first step converging at level 1..6 (so that the ideal rank takes every value), then every sequence of <= 5 (6) estimates over {0,1e-9,0.9,1.4,40,1e5,1e16}; a second step converging at level 1..6 optional; DKD 7 and 10",
                 [](bool t) { return mc::nseq(L, D(t) - 1) * 6 * 2; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int r = d(6), v = d(2) * 2;
                     std::vector<double> s(r, 10.0);
                     s.push_back(0.5);
                     for (int k : mc::seq(d.v, L)) s.push_back(EA[k]);
                     bs_any(c, v, s, 0.02, 0);
                 }});
    S.push_back({"bs/other", "one Bulirsch-Stoer object given systems of 2, 3 and 12 particles in turn (another one in every call, from each of the three): first step converging at level 1..6, then every sequence of <= 4 (5) estimates over {0,1e-9,0.9,1.4,40}; DKD/KDK, depth 7/10/12",
                 [](bool t) { return mc::nseq(5, t ? 5 : 4) * 6 * 4 * 3; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int r = d(6), v = d(4), cfg = d(3);
                     std::vector<double> s(r, 10.0);
                     s.push_back(0.5);
                     for (int k : mc::seq(d.v, 5)) s.push_back(EA[k]);
                     bs_any(c, v, s, 0.02, 10 + cfg);
                 }});
    S.push_back({"bs/extreme", "as bs/rank with estimates over {0,0.9,1.01,3e3,1e300}, <= 6 (7) long, DKD 7 and KDK 12",
                 [](bool t) { return mc::nseq(5, D(t)) * 6 * 2; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int r = d(6), v = d(2) * 3;
                     std::vector<double> s(r, 1e300);
                     s.push_back(0.5);
                     static const double A5[] = {0, 0.9, 1.01, 3e3, 1e300};
                     for (int k : mc::seq(d.v, 5)) s.push_back(A5[k]);
                     bs_any(c, v, s, -0.05, 0);
                 }});
    S.push_back({"bs/window", "levels below K=1..7 always fail (error 1e3), those from K on take every sequence of <= 5 (6) estimates over {0,0.999,1.001,40,1e5,1e16}; DKD 7 and 10, KDK 7 and 12",
                 [](bool t) { return mc::nseq(6, D(t) - 1) * 7 * 4; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int low = 1 + d(7), v = d(4);
                     static const double A6[] = {0, 0.999, 1.001, 40, 1e5, 1e16};
                     std::vector<double> s;
                     for (int k : mc::seq(d.v, 6)) s.push_back(A6[k]);
                     bs_any(c, v, s, 0.04, 1, low);
                 }});
    S.push_back({"sequent", "SequentOdeIterator: every sequence of <= 5 (6) scaled errors over {0,0.97,1.03,1e8,1e-12,30}, optionally after 6 failing ones (so that the retry limit is reached); 2nd..10th order; +-step; 3 calls",
                 [](bool t) { return mc::nseq(6, D(t) - 1) * 5 * 2 * 2; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int v = d(5), sg = d(2), pre = d(2);
                     std::vector<double> s(pre ? 6 : 0, 5.0);
                     for (int k : mc::seq(d.v, 6)) s.push_back(SA[k]);
                     seq_any(c, v, s, sg ? -0.02 : 0.02, sg, 3);
                 }});
    S.push_back({"ias15/ratio", "IAS15: every sequence of <= 4 (5) controller ratios over {0.05,0.2,0.26,0.6,1,2.5,70}; eccentricity 0/0.5; first step +-0.01/0.08(1-e)",
                 [](bool t) { return mc::nseq(7, D(t) - 2) * 8; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int e = d(2), sg = d(2), big = d(2);
                     std::vector<double> s;
                     for (int k : mc::seq(d.v, 7)) s.push_back(RA[k]);
                     double ee = e ? 0.5 : 0.0;
                     rad_case(c, s, (sg ? -1 : 1) * (big ? 0.08 : 0.01) * (1 - ee), ee);
                 }});
    S.push_back({"real", "real error checkers: BS (DKD, KDK, RMS depth 10) and IAS15 on Kepler orbits e in {0,.3,.7,.9}, mass ratio 1/1e-2/1e-6, first step +-{1e-6..50}, fresh or previously used on another system; 4 steps",
                 [](bool) { return (uint64_t)4 * 8 * 2 * 4 * 3 * 4; }, [](mc::Case& c, uint64_t i) {
                     mc::Dec d(i);
                     int v = d(4);
                     double h = d.pick(RH) * (d(2) ? -1 : 1), e = d.pick(RE), q = d.pick(RQ);
                     int u = d(4);
                     switch (v) {
                         case 0: real_case<RBS>(c, "BS DKD", h, e, q, u, 2e-11, 3, 15); break;
                         case 1: real_case<RBK>(c, "BS KDK", h, e, q, u, 2e-11, 3, 15); break;
                         case 2: real_case<RB2>(c, "BS KDK RMS", h, e, q, u, 2e-11, 3, 21); break;
                         case 3: if (std::fabs(h) < 4) real_case<RIA>(c, "IAS15", h, e, q, u, 1e-9, 1, 7); break;  // longer first steps may exhaust the retry limit
                     }
                 }});
    return mc::main(argc, argv, std::move(S));
}
