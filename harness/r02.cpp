// R02: run() reaches the requested end time.  Part A: scripted iterator; part B (GROUP): the real methods.
#include "stub_run.hpp"
#include "methods.hpp"
using namespace stub;
using mc::fmt;
#ifndef GROUP
template <typename System>
using SimOf = hub::Simulator<System, Iter>;
static const double FAC[] = {1, 2, 0.5, 0.1, 10};
static const double RFAC[] = {1, 1.7, 0.01};
static const double SCALE[] = {1, 0.25, 3};
static const double EPS[] = {0, 0.01, -0.3, 0.2};
template <typename System>
static void go(mc::Case& c, SimOf<System>& sim, double end, double h0, double tol, bool regu, double maxinc, std::string const& tag) {
    typename SimOf<System>::RunArgs a;
    a.step_size = h0;
    a.time_rtol = tol;
    std::vector<double> opt, oph;
    a.add_operation([&](System& p, double h) { opt.push_back(p.time()); oph.push_back(h); });
    a.add_stop_condition(end);
    double t0 = sim.particles().time();
    size_t from = log_.size();
    try { sim.run(a); } catch (TooLong) { return c.fail("no-end", tag + ": run does not terminate"); }
    double dir = end >= t0 ? 1 : -1;
    double t1 = sim.particles().time(), lim = tol * std::fabs(end) * (1 + 1e-9);
    c.states(opt.size());
    c.transitions(opt.size());
    if (!(std::fabs(t1 - end) <= lim)) c.fail("end-time", tag + fmt(": run ended at %.17g instead of %.17g", t1, end));
    if (opt.empty() || opt.front() != t0) c.fail("start-time", tag + fmt(": run did not continue from the state reached (%.17g)", t0));
    for (size_t i = 1; i < opt.size(); ++i) {
        if (!regu && dir * opt[i] < dir * opt[i - 1]) { c.fail("monotone", tag + fmt(": time went from %.17g back to %.17g", opt[i - 1], opt[i])); break; }
        if (!regu && dir * (opt[i] - end) > lim) { c.fail("overshoot", tag + fmt(": step ended at %.17g beyond %.17g", opt[i], end)); break; }
        if (regu && dir * (opt[i - 1] - end) < 0 && dir * (opt[i] - opt[i - 1]) < 0) { c.fail("monotone", tag + ": time decreased before the end"); break; }
    }
    // a step never ends beyond the end other than by the regularisation's own inaccuracy of one step
    if (regu) for (size_t i = 1; i < opt.size(); ++i) if (dir * (opt[i] - end) > lim + 0.21 * std::fabs(end - t0)) { c.fail("overshoot", tag + fmt(": step ended at %.17g beyond %.17g", opt[i], end)); break; }
    // first step: the user's, or an automatic positive one, clipped to the rest
    const Ev* first = nullptr;
    for (size_t i = from; i < log_.size() && !first; ++i) if (log_[i].kind == 'I') first = &log_[i];
    if (std::fabs(t0 - end) > lim) {
        if (!first) return c.fail("no-step", tag + ": no step taken");
        double rest = (end - t0) * scale0_;
        double want = h0 != 0 ? dir * std::min(std::fabs(h0), std::fabs(rest)) : 0;
        if (h0 != 0 && std::fabs(first->h - want) > 1e-12 * std::fabs(want)) c.fail("first-step", tag + fmt(": first step %.17g instead of %.17g", first->h, want));
        if (h0 == 0 && !(first->h * dir > 0 && std::fabs(first->h) <= std::fabs(rest) * (1 + 1e-12))) c.fail("auto-step", tag + fmt(": automatic first step %.17g", first->h));
    } else if (first) c.fail("extra-step", tag + ": a step was taken although the end time was already reached");
    c.outcome(mc::Hasher()(opt.size())(t1 - end).h);
}
static double unused_;
static std::vector<Sys::Particle> two() { return {Sys::Particle{1.0, -1, 0, 0, 0, -0.5, 0}, Sys::Particle{1.0, 1, 0, 0, 0, 0.5, 0}}; }
static const double T0[] = {0, -3, 5.5, 1e6, -1e3};
static const double DUR[] = {1, 2.7, 0.01, 33};
static const double H0[] = {0, 0.3, 1, 5};
static const double TOL[] = {1e-8, 1e-12, 1e-3};
// physical-time systems: every script of proposed steps
static void phys(mc::Case& c, uint64_t i, int depth) {
    mc::Dec d(i);
    std::vector<int> sc;
    for (int k = 0; k < depth; ++k) sc.push_back(d(5));
    double t0 = d.pick(T0), dur = d.pick(DUR), h0 = d.pick(H0), tol = d.pick(TOL);
    int part = d(2), restart = d(3), way = d(3);  // forwards; backwards with a negative / positive first step
    if (way) dur = -dur;
    if (way == 1) h0 = -h0;
    reset();
    limit_ = 5000;
    scale0_ = 1;
    double base = h0 ? std::fabs(h0) : 0.2;
    base = std::max(base, std::fabs(dur) / 50);
    step_ = [&](double h, double, double& adv) {
        size_t k = iters_ - 1;
        if (part && k % 2 == 0) adv = 0.5 * h;  // the iterator accepted only half of the step
        return std::copysign((k < sc.size() ? FAC[sc[k]] : 1.0) * base, h);
    };
    SimOf<Sys> sim(t0, two());
    std::string tag = fmt("start %g +%g h0=%g tol=%g part=%d script", t0, dur, h0, tol, part);
    for (int s : sc) tag += fmt(" %g", FAC[s]);
    c.sample(tag);
    double end = t0 + dur;
    if (end == 0) return;
    go<Sys>(c, sim, end, h0, tol, false, 0, tag);
    if (restart) {
        double end2 = restart == 1 ? end + dur * 1.3 : end * (1 + ((end > 0) == (dur > 0) ? 0.1 : -0.1) * tol);  // further, or (almost) where it is
        if (end2 == 0) return;
        iters_ = 0;
        go<Sys>(c, sim, end2, restart == 1 ? h0 : std::copysign(0.3, dur), tol, false, 0, tag + " restarted");
        if (restart == 1) { iters_ = 0; go<Sys>(c, sim, end2 + std::copysign(0.77, dur), 0, tol, false, 0, tag + " restarted twice"); }
    }
}
// regularised systems: the fictitious step and physical time differ, the scale changes from step to step and the time
// really passed deviates by up to 1% from the prediction
template <typename System>
static void regu(mc::Case& c, uint64_t i, int depth) {
    mc::Dec d(i);
    std::vector<int> sc, ss, se;
    for (int k = 0; k < depth; ++k) sc.push_back(d(3)), ss.push_back(d(3)), se.push_back(d(4));
    double t0 = d.pick(T0), dur = d.pick(DUR), h0 = d.pick(H0), tol = d.pick(TOL);
    int way = d(3);
    if (way) dur = -dur;
    if (way == 1) h0 = -h0;
    reset();
    limit_ = 5000;
    scale_ = scale0_ = SCALE[ss[depth - 1]];
    double base = std::max(h0 ? std::fabs(h0) : 0.2, std::fabs(dur) / 50);
    step_ = [&](double h, double, double& adv) {
        size_t k = iters_ - 1;
        adv = h / scale_ * (1 + EPS[se[k % depth]]);
        double f = RFAC[sc[k % depth]];
        scale_ = SCALE[ss[k % depth]];
        return std::copysign((k >= 12 && f < 0.1 ? 1 : f) * base, h);
    };
    SimOf<System> sim(t0, two());
    std::string tag = fmt("regularised start %g +%g h0=%g tol=%g script", t0, dur, h0, tol);
    for (int k = 0; k < depth; ++k) tag += fmt(" (%g,%g,%g)", RFAC[sc[k]], SCALE[ss[k]], EPS[se[k]]);
    c.sample(tag);
    if (t0 + dur == 0) return;
    go<System>(c, sim, t0 + dur, h0, tol, true, 0, tag);
    iters_ = 0;
    scale0_ = scale_;
    if (t0 + 2 * dur == 0) return;
    go<System>(c, sim, t0 + 2 * dur, h0, tol, true, 0, tag + " restarted");
}
// automatic first step: a tenth of the smallest free-fall time of any pair, in fictitious units for regularised systems
static void autostep(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int n = 2 + d(3);
    double sc[] = {1, 0.125, 7};
    double s = d.pick(sc);
    int reg = d(2);
    std::vector<Sys::Particle> v;
    for (int k = 0; k < n; ++k) { double m = 0.5 + d(2) * 3; int pos = d(4); v.push_back(Sys::Particle{m, k * 1.0 + 0.25 * pos, 0.5 * pos, k * 0.5, 0, 0, 0}); }
    reset();
    scale_ = s;
    double h = 0, mn = 1e300;
    for (int a = 0; a < n; ++a) for (int b = a + 1; b < n; ++b) {
        double r = norm(v[a].pos - v[b].pos);
        mn = std::min(mn, std::sqrt(r * r * r / (v[a].mass + v[b].mass)));
    }
    double ff = mn * std::acos(-1.0) * 0.5 / std::sqrt(2.0) * 0.1;
    auto body = [&](auto& sim) {
        typename std::remove_reference_t<decltype(sim)>::RunArgs a;
        step_ = [&](double hh, double, double& adv) { if (h == 0) h = hh; adv = 100; return hh; };
        a.add_stop_condition(100.0);
        sim.run(a);
    };
    if (reg) { hub::Simulator<RSys, Iter> sim(0, v); body(sim); ff *= s; } else { SimOf<Sys> sim(0, v); body(sim); }
    c.states();
    // any positive automatic step of this order of magnitude serves: it must be positive and not exceed the free-fall time scale
    c.check(h > 0 && h <= 10 * ff * (1 + 1e-9), "auto-step", fmt("case %llu automatic first step %.17g, a tenth of the free-fall time is %.17g", (unsigned long long)i, h, ff));
}
int main(int argc, char** argv) {
    const uint64_t cfg = 5ull * 4 * 4 * 3 * 2 * 3 * 3, rcfg = 5ull * 4 * 4 * 3 * 3;
    return mc::main(argc, argv, {
        {"physical", "all scripts of proposed steps {1,2,.5,.1,10} (depth 4 quick, 6 thorough) x start {0,-3,5.5,1e6,-1e3} x duration {1,2.7,.01,33} x first step {auto,.3,1,5} x time_rtol {1e-8,1e-12,1e-3} x partial acceptance x restart {none, further twice, where it is} x {forwards, backwards with a negative / positive first step}",
         [=](bool t) { return mc::ipow(5, t ? 6 : 4) * cfg; }, [](mc::Case& c, uint64_t i) { phys(c, i, c.thorough ? 6 : 4); }},
        {"regularised", "all scripts of (factor {1,1.7,.01}, scale {1,.25,3}, time deviation {0,+1%,-30%,+20%}) of period 2 (3 thorough) x starts x durations x first steps x tolerances x {forwards, backwards with a negative / positive first step}, restarted once",
         [=](bool t) { return mc::ipow(36, t ? 3 : 2) * rcfg; }, [](mc::Case& c, uint64_t i) { regu<RSys>(c, i, c.thorough ? 3 : 2); }},
        {"autostep", "2-4 bodies, all masses {.5,3.5} and offsets, scales {1,.125,7}", [](bool t) { return 3ull * 3 * 2 * mc::ipow(8, t ? 4 : 3); }, autostep},
    });
}
#else
// ---------------------------------------------------------------- real methods
struct MCase { double e, start, h, rtol, tol; int ends; };
template <typename Sim>
static void method(mc::Case& c, uint64_t i, const char* name, bool constant) {
    using S = typename Sim::Scalar;
    constexpr bool reg = is_regu<typename Sim::ParticleSystem>::value;
    static const double E[] = {0, 0.6, 0.9}, ST[] = {0, -20, 1000}, TL[] = {1e-8, 1e-12};
    static const double ENDS[][3] = {{0.5, 3.7, 11}, {7, 7.001, 7.0011}, {1e-4, 0.01, 2.5}};
    static const double HS[] = {0, 0.01, 0.2, 0.7};
    mc::Dec d(i);
    double e = d.pick(E), st = d.pick(ST), h = d.pick(HS), tol = d.pick(TL);
    int en = d(3), nb = 2 + d(2);
    using P = typename Sim::Particle;
    std::vector<P> v;
    double vp = std::sqrt((1 + e) / (1 - e) * 2.0);
    v.push_back(P{1.0, -(1 - e) / 2, 0, 0, 0, -vp / 2, 0.1});
    v.push_back(P{1.0, (1 - e) / 2, 0, 0, 0, vp / 2, 0.1});
    if (nb == 3) v.push_back(P{0.3, 7, 1, -1, -0.1, 0.3, 0.05});
    if (constant && h == 0) h = 0.02;
    if (constant && h > 0.5) h = 0.05;  // a constant step has to resolve the orbit
    Sim sim(st, v);
    std::string tag = fmt("%s e=%g start=%g h0=%g tol=%g ends#%d n=%d", name, e, st, h, tol, en, nb);
    c.sample(tag);
    for (int r = 0; r < 3; ++r) {
        double end = st + ENDS[en][r];
        if (end == 0) continue;
        typename Sim::RunArgs a;
        a.step_size = h;
        a.time_rtol = tol;
        a.rtol = 1e-11;
        a.atol = 1e-13;
        std::vector<double> t;
        S first = 0;
        a.add_operation([&](typename Sim::ParticleSystem& p, S hh) { if (t.empty()) first = hh; t.push_back((double)p.time()); if (t.size() > 400000) throw TooLong{}; });
        a.add_stop_condition(S(end));
        double t0 = (double)sim.particles().time(), lim = tol * std::fabs(end) * (1 + 1e-9);
        double scale = (double)sim.particles().step_scale();
        try { sim.run(a); } catch (TooLong) { return c.fail("no-end", tag + ": run does not terminate"); }
        double t1 = (double)sim.particles().time();
        c.states(t.size());
        c.transitions(t.size());
        if (!(std::fabs(t1 - end) <= lim)) return c.fail("end-time", tag + fmt(": run %d ended at %.17g instead of %.17g", r, t1, end));
        if (t.front() != t0) return c.fail("start-time", tag + ": does not start from the state reached");
        for (size_t k = 1; k < t.size(); ++k) {
            if (t[k] < t[k - 1] && (!reg || t[k - 1] < end)) return c.fail("monotone", tag + fmt(": time went from %.17g back to %.17g", t[k - 1], t[k]));
            if (!reg && t[k] > end + lim) return c.fail("overshoot", tag + fmt(": step ended at %.17g beyond %.17g", t[k], end));
        }
        double rest = (end - t0) * scale;
        if (h != 0 && std::fabs(end - t0) > lim && std::fabs((double)first - std::min(h, rest)) > 1e-9 * rest) c.fail("first-step", tag + fmt(": first step %.17g, requested %.17g (rest %.17g)", (double)first, h, rest));
        if (h == 0 && std::fabs(end - t0) > lim && !(first > 0)) c.fail("auto-step", tag + ": automatic first step not positive");
        c.outcome(mc::Hasher()(t.size())(r).h);
    }
}
#define ADD(M) s.push_back({#M, "e {0,.6,.9} x start {0,-20,1000} x first step {auto,.01,.2,.7} x time_rtol {1e-8,1e-12} x 3 lists of 3 consecutive end times x 2-3 bodies", [](bool) { return 3ull * 3 * 4 * 2 * 3 * 2; }, [](mc::Case& c, uint64_t i) { method<hub::methods::M<>>(c, i, #M, std::string(#M).find("Const") == 0); }});
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
#if GROUP == 0
    FAMBS(ADD) FAMBSP(ADD, _Plus)
#elif GROUP == 1
    FAM4(ADD, Sym2) FAM4(ADD, Sym4)
#elif GROUP == 2
    FAM4(ADD, Sym6) FAM4(ADD, Sym8)
#elif GROUP == 3
    FAM4(ADD, Sym10) FAM4(ADD, Radau)
#elif GROUP == 4
    FAMC(ADD, Sym2) FAMC(ADD, Sym6) FAMC(ADD, Radau)
#elif GROUP == 5
    FAM4P(ADD, Sym4, _Ext) FAM4P(ADD, Radau, _Plus)
#endif
    return mc::main(argc, argv, s);
}
#endif
