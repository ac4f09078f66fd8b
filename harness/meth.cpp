// I06 / S03 / S04: the ready-made methods (hub::methods::*), run through Simulator::run on complete problems
#include "methods.hpp"
#include <memory>
#include "phys.hpp"
#ifndef PROP
#define PROP 6
#endif
struct Job {
    Bodies b;
    LD t0 = 0, end = 1, step = 0, rtol = 1e-10L, atol = 0;
    LD mid = 0;  // not 0: a first run() of the same simulator ends here
    bool fict = false;  // the given step is in physical units and is converted to the system's units
    size_t max_steps = 2000000;
    // called at every operation callback with the state and what calc:: says about it
    struct Obs { Bodies const& b; LD t, h; size_t k; bool hasB = false; LD ekin = 0, epot = 0, etot = 0, err0 = 0, bindE = 0; V3 com, vcom, L, Liso; };
    std::function<void(Obs const&)> obs;
    bool want_calc = false;
};
struct Res { Bodies b; LD t = 0; size_t steps = 0; bool toolong = false; };
struct Meth { const char* name; int order; bool constant, regu, chain, plus, ext; std::function<Res(Job const&)> run; };
struct TooLong {};
template <typename Sim> static Res run(Job const& j) {
    using S = typename Sim::Scalar;
    using PS = typename Sim::ParticleSystem;
    std::vector<typename Sim::Particle> v;
    for (auto& b : j.b) v.push_back(mkpoint<typename Sim::Particle>(b));
    Sim sim((S)j.t0, v);
    typename Sim::RunArgs a;
    a.step_size = (S)j.step;
    if (j.fict) a.step_size = (S)(j.step * ld(sim.particles().step_scale()));
    a.rtol = (S)j.rtol;
    a.atol = (S)j.atol;
    a.time_rtol = (S)1e-9;
    a.add_stop_condition((S)j.end);
    Res r;
    auto snap = [](PS const& p) {
        Bodies o(p.number());
        for (size_t i = 0; i < o.size(); ++i) o[i].m = ld(p.mass(i)), o[i].x = v3(p.pos(i)), o[i].v = v3(p.vel(i));
        return o;
    };
    S E0 = 0;
    a.add_operation([&](PS& p, S h) {
        if (r.steps++ > j.max_steps) throw TooLong{};
        if (!j.obs) return;
        Bodies b = snap(p);
        Job::Obs o{b, ld(p.time()), ld(h), r.steps - 1};
#if PROP == 3
        if (r.steps == 1) E0 = calc::calc_total_energy(p);
        o.ekin = ld(calc::calc_kinetic_energy(p));
        o.epot = ld(calc::calc_potential_energy(p));
        o.etot = ld(calc::calc_total_energy(p));
        o.err0 = ld(calc::calc_energy_error(p, E0));
        if constexpr (IsRegu<PS>::value) o.hasB = true, o.bindE = ld(p.bindE());
        o.com = v3(calc::calc_com(p.mass(), p.pos()));
        o.vcom = v3(calc::calc_com(p.mass(), p.vel()));
        o.L = v3(calc::calc_total_angular_momentum(p));
        std::vector<size_t> sub{0, p.number() - 1};
        o.Liso = v3(calc::calc_isolated_angular_momentum(p, sub));
#endif
        j.obs(o);
    });
    try {
        if (j.mid != 0) {
            auto f = a;
            f.add_stop_condition((S)j.mid);
            sim.run(f);
            if (j.step != 0 && j.fict) a.step_size = (S)(j.step * ld(sim.particles().step_scale()));
        }
        sim.run(a);
    } catch (TooLong) { r.toolong = true; }
    r.b = snap(sim.particles());
    r.t = ld(sim.particles().time());
    return r;
}
static int order_of(std::string n) {
    auto p = n.find("Sym");
    if (p == std::string::npos) return n.find("Radau") != std::string::npos ? 15 : 8;
    return atoi(n.c_str() + p + 3);
}
template <typename Sim> static Meth mk(const char* name) {
    std::string n = name;
    using PS = typename Sim::ParticleSystem;
    auto end = [&](const char* s) { size_t l = strlen(s); return n.size() > l && n.compare(n.size() - l, l, s) == 0; };
    return {name, order_of(n), n.find("Const") == 0, n.find("AR_") != std::string::npos, n.find("Chain") != std::string::npos, end("Plus"), n.find("_Ext") != std::string::npos, run<Sim>};
}

#define ONE(N) s.push_back(mk<hub::methods::N<>>(#N));
#define ONEF(N) s.push_back(mk<hub::methods::N<force::Interactions<force::NewtonianGrav, Harm, Mag>>>(#N));
#define ALLP(X, B) FAM4(X, B) FAMC(X, B) FAM4P(X, B, _Plus) FAMCP(X, B, _Plus) FAM4P(X, B, _Ext) FAMCP(X, B, _Ext) FAM4P(X, B, _ExtPlus) FAMCP(X, B, _ExtPlus)
#if GROUP == 0
#define LIST(X) FAMBS(X) FAMBSP(X, _Plus) FAMBSP(X, _Ext) FAMBSP(X, _ExtPlus)
#define LISTF(X) FAMBS(X) FAMBSP(X, _Plus)
#elif GROUP == 1
#define LIST(X) ALLP(X, Sym2)
#define LISTF(X) FAM4(X, Sym2) FAMC(X, Sym2) FAM4P(X, Sym2, _Plus)
#elif GROUP == 2
#define LIST(X) ALLP(X, Sym4)
#define LISTF(X) FAM4(X, Sym4) FAMC(X, Sym4) FAM4P(X, Sym4, _Plus)
#elif GROUP == 3
#define LIST(X) ALLP(X, Sym6)
#define LISTF(X) FAM4(X, Sym6) FAMC(X, Sym6) FAM4P(X, Sym6, _Plus)
#elif GROUP == 4
#define LIST(X) ALLP(X, Sym8)
#define LISTF(X) FAM4(X, Sym8) FAMC(X, Sym8) FAM4P(X, Sym8, _Plus)
#elif GROUP == 5
#define LIST(X) ALLP(X, Sym10)
#define LISTF(X) FAM4(X, Sym10) FAMC(X, Sym10) FAM4P(X, Sym10, _Plus)
#elif GROUP == 6
#define LIST(X) ALLP(X, Radau)
#define LISTF(X) FAM4(X, Radau) FAMC(X, Radau) FAM4P(X, Radau, _Plus)
#endif
// ---------------------------------------------------------------- reference solution of any problem (long double Gragg-Bulirsch-Stoer)
struct RefSol {
    bool forces;
    Acc acc(Bodies const& b) const {
        Acc a(b.size());
        ref::newton(b, a);
        if (forces) Harm::ref(b, a), Mag::ref(b, a);
        return a;
    }
    void deriv(std::vector<LD> const& y, std::vector<LD>& d, Bodies& b) const {
        size_t n = b.size();
        d.resize(6 * n);
        for (size_t i = 0; i < n; ++i) b[i].x = {y[6 * i], y[6 * i + 1], y[6 * i + 2]}, b[i].v = {y[6 * i + 3], y[6 * i + 4], y[6 * i + 5]};
        Acc a = acc(b);
        for (size_t i = 0; i < n; ++i) {
            d[6 * i] = b[i].v.x, d[6 * i + 1] = b[i].v.y, d[6 * i + 2] = b[i].v.z;
            d[6 * i + 3] = a[i].x, d[6 * i + 4] = a[i].y, d[6 * i + 5] = a[i].z;
        }
    }
    void go(Bodies& b, LD T) const {
        size_t D = 6 * b.size();
        std::vector<LD> y(D), d, f0;
        for (size_t i = 0; i < b.size(); ++i) {
            V3 x = b[i].x, v = b[i].v;
            LD q[6] = {x.x, x.y, x.z, v.x, v.y, v.z};
            std::copy(q, q + 6, &y[6 * i]);
        }
        LD t = 0, H = 0.05L;
        const int K = 11;
        while (t < T) {
            if (t + H > T) H = T - t;
            deriv(y, f0, b);
            std::vector<std::vector<LD>> tab;
            bool ok = false;
            for (int k = 0; k < K && !ok; ++k) {
                int n = 2 * (k + 1);
                LD h = H / n;
                std::vector<LD> z0 = y, z1(D), z2(D);
                for (size_t i = 0; i < D; ++i) z1[i] = y[i] + h * f0[i];
                for (int m = 1; m < n; ++m) {
                    deriv(z1, d, b);
                    for (size_t i = 0; i < D; ++i) z2[i] = z0[i] + 2 * h * d[i];
                    z0 = z1, z1 = z2;
                }
                deriv(z1, d, b);
                std::vector<LD> cur(D);
                for (size_t i = 0; i < D; ++i) cur[i] = 0.5L * (z1[i] + z0[i] + h * d[i]);
                std::vector<std::vector<LD>> row{cur};
                for (int j = 1; j <= k; ++j) {
                    LD r = (LD)(k + 1) / (k + 1 - j);
                    std::vector<LD> e(D);
                    for (size_t i = 0; i < D; ++i) e[i] = row[j - 1][i] + (row[j - 1][i] - tab[j - 1][i]) / (r * r - 1);
                    row.push_back(e);
                }
                if (k >= 5) {
                    LD e = 0;
                    for (size_t i = 0; i < D; ++i) e = std::max(e, std::fabs(row[k][i] - row[k - 1][i]) / (1 + std::fabs(row[k][i])));
                    ok = e < 2e-18L;
                }
                tab = row;
            }
            if (!ok && H > 1e-5L) { H /= 2; continue; }
            t += H;
            y = tab.back();
            if (ok) H *= 1.3L;
        }
        deriv(y, d, b);
    }
};
// reference at time t near the requested end: solution at `end`, plus a Taylor step
static Bodies ref_at(bool forces, Bodies const& b0, LD dur, LD t, std::string const& key) {
    static std::map<std::string, Bodies> cache;
    std::string k = fmt("%s|%d|%.17Lg", key.c_str(), (int)forces, dur);
    auto it = cache.find(k);
    if (it == cache.end()) {
        Bodies b = b0;
        RefSol{forces}.go(b, dur);
        it = cache.emplace(k, b).first;
    }
    Bodies b = it->second;
    Acc a = RefSol{forces}.acc(b);
    LD dt = t - dur;
    for (size_t i = 0; i < b.size(); ++i) b[i].x += dt * b[i].v + (dt * dt / 2) * a[i], b[i].v += dt * a[i];
    return b;
}
static LD diff(Bodies const& a, Bodies const& b) {
    LD dx = 0, dv = 0, sx = 0, sv = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        dx = std::max(dx, normp(a[i].x - b[i].x)), sx = std::max(sx, normp(b[i].x));
        dv = std::max(dv, normp(a[i].v - b[i].v)), sv = std::max(sv, normp(b[i].v));
    }
    LD e = std::max(dx / sx, dv / sv);
    return e == e ? e : 1e30L;
}
static Bodies binary(LD e, LD M, LD q, int orient, LD& P) {
    LD m1 = 1, m2 = q, mu = m1 + m2, a = 1, E = M;
    for (int i = 0; i < 60; ++i) E -= (E - e * std::sin(E) - M) / (1 - e * std::cos(E));
    LD n = std::sqrt(mu), r = 1 - e * std::cos(E), bb = std::sqrt(1 - e * e);
    V3 x{std::cos(E) - e, bb * std::sin(E), 0}, v{-n / r * std::sin(E), n * bb / r * std::cos(E), 0};
    if (orient) {
        auto rot = [](V3 p) { V3 s{.36L * p.x - .48L * p.y + .8L * p.z, .8L * p.x + .6L * p.y, -.48L * p.x + .64L * p.y + .6L * p.z}; return s; };
        x = rot(x), v = rot(v);
    }
    P = 2 * ref::pi / n;
    Body p, s;
    p.m = m1, s.m = m2;
    auto rnd = [](V3 u) { return V3{(LD)(double)u.x, (LD)(double)u.y, (LD)(double)u.z}; };
    V3 X{.25, -.5, .125}, W{.1, .05, -.2};
    if (!orient) X = W = {0, 0, 0};
    p.x = rnd(X + (-m2 / mu) * x), s.x = rnd(X + (m1 / mu) * x), p.v = rnd(W + (-m2 / mu) * v), s.v = rnd(W + (m1 / mu) * v);
    return {p, s};
}
static Bodies cluster(int conf, int n) {
    Bodies b;
    for (int j = 0; j < n; ++j) b.push_back(start(conf, j));
    return b;
}
static std::vector<Meth>& pure() {
    static std::vector<Meth> s = [] { std::vector<Meth> s; LIST(ONE) return s; }();
    return s;
}
static std::vector<Meth>& forced() {
    static std::vector<Meth> s = [] { std::vector<Meth> s; LISTF(ONEF) return s; }();
    return s;
}
static LD floor_of(Meth const& m, size_t steps) { return (m.ext ? 1e-18L : 2e-15L) * (30 + steps); }
static void cal(char what, Meth const& m, LD ratio, std::string const& tag) {
    static const bool on = getenv("MC_CAL");
    if (on) fprintf(stderr, "%c %s %d %.4Lg %s\n", what, m.name, m.order, ratio, tag.c_str());
}
#if PROP == 6 || PROP == 4
// allowed global error in units of the tolerance: >= 10 times what the methods reach on the unchanged tree
static LD allow(Meth const& m, bool hard) {
    LD k = m.order <= 4 ? 1e5L : 2e4L;
    return (hard ? 20 : 1) * k;
}
#endif
#if PROP == 6 || PROP == 4
// SequentOdeIterator accepts its finest subdivision (20) even if that misses the tolerance and then shrinks the next step
// by more than its safety factor; such a run promises nothing.  It shows in the steps that the callbacks are given.
struct Watch {
    bool coarse = false, shrunk = false;
    LD last = 0;
    Watch(Meth const& m, Job& j) {
        if (strstr(m.name, "Sym"))
            j.obs = [this, end = j.end, t0 = j.t0, mid = j.mid](Job::Obs const& o) {
                bool stop = mid != 0 && std::fabs(o.t - mid) <= 2e-9L * std::fabs(mid);
                if (shrunk && !stop) coarse = true;  // it did not shrink only to end the first run
                shrunk = !stop && last != 0 && std::fabs(o.h) < .695L * std::fabs(last) && (end > t0 ? o.t < end - 1e-3L * std::fabs(end) : o.t > end + 1e-3L * std::fabs(end));
                last = stop ? 0 : o.h;
            };
    }
    Watch(Watch const&) = delete;
};
static const LD ES[] = {0, .3, .6, .9}, MS[] = {0, 2}, QS[] = {1, 1e-3}, TS[] = {.3, 1, 2.6}, ST[] = {0, 1e-3};
static void tols(Meth const& m, int tl, Job& j) {
    static const LD R[3][2] = {{1e-6, 1e-8}, {1e-8, 1e-12}, {1e-10, 1e-16}};
    int k = m.order == 2 ? 0 : m.ext && m.order > 5 ? 2 : 1;
    if (m.order == 4 && m.ext) j.rtol = tl ? 1e-13L : 1e-8L;
    else j.rtol = R[k][tl & 1];
    j.atol = 0;
    if (tl == 2) j.rtol = 1e-300L, j.atol = m.order == 2 ? 1e-7L : 1e-9L;
}
static const LD CQ[] = {1, .3, 1e-3};
#endif
#if PROP == 6
// ---------------------------------------------------------------- I06: accuracy
static void judge(mc::Case& c, Meth const& m, Job const& j, Res const& r, LD err, bool hard, std::string const& tag) {
    c.states();
    c.transitions(r.steps);
    if (r.toolong) return c.fail(m.name + std::string(" no-end"), tag + ": run does not end");
    LD tol = j.rtol + j.atol;
    cal(hard ? 'H' : 'E', m, std::max<LD>(0, err - floor_of(m, r.steps)) / tol, tag);
    if (!(std::fabs(r.t - j.end) <= 1.01e-9L * std::fabs(j.end))) c.fail(m.name + std::string(" end-time"), tag + fmt(": ended at %.17Lg instead of %.17Lg", r.t, j.end));
    if (!(err <= allow(m, hard) * tol + 10 * floor_of(m, r.steps))) c.fail(m.name + std::string(" accuracy"), tag + fmt(": error %.3Lg with tolerance %.1Lg after %zu steps", err, tol, r.steps));
    c.outcome(mc::Hasher()(r.steps)((double)err).h);
}
static uint64_t nkepler(Meth const& m, bool t) { return !m.ext || t ? 4 * 2 * 2 * 2 * 3 * 3 * 2 : 4 * 2 * 3; }
static void kepler_case(mc::Case& c, uint64_t i, Meth const& m) {
    mc::Dec d(i);
    bool full = !m.ext || c.thorough;
    Job j;
    LD e = d.pick(ES), T = full ? d.pick(TS) : TS[1 + d(2)], P;
    tols(m, d(3), j);
    int o = full ? d(2) : 1;
    LD M = full ? d.pick(MS) : 2, q = full ? d.pick(QS) : 1, st = full ? d.pick(ST) : 0;
    if (m.order == 2 && e > .6L && !c.thorough) return;
    j.b = binary(e, M, q, o, P);
    j.t0 = (i % 3) ? 0 : -7;
    j.end = (LD)(double)(j.t0 + T * P);
    j.step = st;
    j.fict = st != 0;
    std::string tag = fmt("%s e=%.1Lf M=%.0Lf q=%.3Lf orient=%d T=%.1LfP t0=%.0Lf step=%.0Le rtol=%.0Le atol=%.0Le", m.name, e, M, q, o, T, j.t0, st, j.rtol, j.atol);
    c.sample(tag);
    Watch w(m, j);
    auto r = m.run(j);
    if (w.coarse && m.order == 10) return c.states();
    auto k = j.b;
    kepler(k[0].x, k[0].v, k[1].x, k[1].v, k[0].m, k[1].m, r.t - j.t0);
    judge(c, m, j, r, diff(r.b, k), e > .6L, tag);
}
// several bodies, optionally with external position and velocity dependent forces
static uint64_t ncluster(Meth const& m, bool t) { return !m.ext || t ? 3 * 3 * 2 * 3 * 2 : 3 * 2; }
static void cluster_case(mc::Case& c, uint64_t i, Meth const& m, bool f) {
    mc::Dec d(i);
    bool full = !m.ext || c.thorough;
    Job j;
    int conf = d(3), n;
    LD T, st;
    if (full) { n = (f ? 2 : 3) + d(3); T = d(2) ? 2 : .5L; tols(m, d(3), j); st = d.pick(ST); }
    else { n = 4; T = 2; tols(m, d(2), j); st = 0; }
    if (m.order == 2 && !c.thorough && st != 0) return;
    j.b = cluster(conf, n);
    j.end = T;
    j.step = st;
    j.fict = st != 0;
    Watch w(m, j);
    std::string tag = fmt("%s%s conf=%d n=%d T=%.1Lf step=%.0Le rtol=%.0Le atol=%.0Le", m.name, f ? " with external forces" : "", conf, n, T, st, j.rtol, j.atol);
    c.sample(tag);
    auto r = m.run(j);
    if (w.coarse && (f || m.order == 10)) return c.states();
    judge(c, m, j, r, diff(r.b, ref_at(f, j.b, T, r.t, fmt("%d %d", conf, n))), f, tag);
}
// many bodies, a short run
static void many_case(mc::Case& c, uint64_t i, Meth const& m) {
    mc::Dec d(i);
    Job j;
    int n = d(2) ? 20 : 12, tl = d(2) * 2, conf = d(3);
    tols(m, tl, j);
    LD T = .25L;
    j.b = cluster(conf, n);
    j.end = T;
    Watch w(m, j);
    std::string tag = fmt("%s conf=%d n=%d T=%.2Lf rtol=%.0Le atol=%.0Le", m.name, conf, n, T, j.rtol, j.atol);
    c.sample(tag);
    auto r = m.run(j);
    if (w.coarse) return c.states();
    LD err = diff(r.b, ref_at(false, j.b, T, r.t, fmt("many %d %d", conf, n))), tol = j.rtol + j.atol;
    judge(c, m, j, r, err, true, tag);
    // a short smooth run: at most 4 tolerances on the unchanged tree
    if (!(err <= 200 * tol + 10 * floor_of(m, r.steps))) c.fail(m.name + std::string(" accuracy"), tag + fmt(": error %.3Lg with tolerance %.1Lg after %zu steps", err, tol, r.steps));
}
// constant steps: halving the step reduces the error by the order of the method
static uint64_t nconst(Meth const& m, bool t) { return !m.ext || t ? 3 * 2 * 2 * 2 + 3 * 3 : 3 + 3; }
static void const_case(mc::Case& c, uint64_t i, Meth const& m, bool f) {
    Job j;
    LD P, base, T;
    int conf = -1, n = 2;
    bool full = !m.ext || c.thorough;
    uint64_t nk = full ? 24 : 3;
    LD e = 0, q = 1;
    int o = 1, ph = 0;
    if (i < nk && !f) {
        mc::Dec d(i);
        e = ES[d(3)];
        if (full) q = d.pick(QS), o = d(2), ph = d(2);
        j.b = binary(e, MS[ph], q, o, P);
        T = 2.2L * P;
    } else {
        if (f) i += nk;
        if (i - nk >= (full ? 9u : 3u)) return;
        mc::Dec d(i - nk);
        conf = d(3), n = full ? 3 + d(3) : 4;
        j.b = cluster(conf, n);
        T = P = 1.5;
    }
    j.end = (LD)(double)T;
    std::string tag = fmt("%s%s ", m.name, f ? " with external forces" : "") + (conf < 0 ? fmt("binary e=%.1Lf q=%.3Lf orient=%d phase=%d", e, q, o, ph) : fmt("conf=%d n=%d", conf, n));
    c.sample(tag);
    // first number of steps with an error below 1e-3, then twice as many
    LD prev = 0;
    base = m.order == 2 ? 64 : 16;
    for (int k = 0; k < 12; ++k, base *= 2) {
        j.step = T / base;
        j.fict = true;
        auto r = m.run(j);
        LD err = diff(r.b, conf < 0 ? [&] { auto b = j.b; kepler(b[0].x, b[0].v, b[1].x, b[1].v, b[0].m, b[1].m, r.t); return b; }() : ref_at(f, j.b, T, r.t, fmt("%d %d", conf, n)));
        LD fl = 50 * floor_of(m, r.steps);
        c.states();
        c.transitions(r.steps);
        if (prev != 0 && prev < (m.order == 10 ? 1e-8L : 1e-4L)) {
            LD need = prev / std::pow(2.L, m.order == 10 ? 5.L : std::min(m.order, 8) - 1.2L);
            cal('R', m, (err - fl) / need, tag + fmt(" N=%.0Lf %.3Lg -> %.3Lg", base, prev, err));
            if (!(err <= need + fl)) c.fail(m.name + std::string(" order"), tag + fmt(": error %.3Lg with %.0Lf steps, %.3Lg with twice as many", prev, base / 2, err));
            c.outcome(mc::Hasher()((double)err).h);
            return;
        }
        prev = err;
    }
    c.fail(m.name + std::string(" order"), tag + fmt(": does not converge, error %.3Lg with %.0Lf steps", prev, base / 2));
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    for (auto& m : pure()) {
        Meth const* p = &m;
        if (!m.constant) {
            s.push_back({m.name + std::string(" kepler"), "bound orbits e {0,.3,.6,.9} x phase x mass ratio {1,1e-3} x orientation and bulk motion x end {.3,1,2.6} periods x tolerance {loose, tight, absolute} x first step {auto, 1e-3}, against the analytic solution",
                         [p](bool t) { return nkepler(*p, t); }, [p](mc::Case& c, uint64_t i) { kepler_case(c, i, *p); }, 60});
            s.push_back({m.name + std::string(" cluster"), "3 configurations x 3-5 bodies x end {.5,2} x tolerance {loose, tight, absolute} x first step {auto, 1e-3}, against a long double reference integration",
                         [p](bool t) { return ncluster(*p, t); }, [p](mc::Case& c, uint64_t i) { cluster_case(c, i, *p, false); }, 60});
            s.push_back({m.name + std::string(" many bodies"), "3 configurations x 12 or 20 bodies x tolerance {loose, absolute}, against a long double reference integration",
                         [p](bool t) { return (uint64_t)(!p->ext || t ? 12 : 1); }, [p](mc::Case& c, uint64_t i) { many_case(c, i, *p); }, 60});
        } else
            s.push_back({m.name + std::string(" converges"), "bound orbits e {0,.3,.6} x mass ratio x orientation x phase and 3 configurations x 3-5 bodies: step halving",
                         [p](bool t) { return nconst(*p, t); }, [p](mc::Case& c, uint64_t i) { const_case(c, i, *p, false); }, 60});
    }
    for (auto& m : forced()) {
        Meth const* p = &m;
        if (!m.constant)
            s.push_back({m.name + std::string(" forces"), "Newton + harmonic + velocity dependent forces: 3 configurations x 2-4 bodies x end {.5,2} x tolerance x first step, against a long double reference integration",
                         [p](bool t) { return ncluster(*p, t); }, [p](mc::Case& c, uint64_t i) { cluster_case(c, i, *p, true); }, 60});
        else
            s.push_back({m.name + std::string(" forces converge"), "Newton + harmonic + velocity dependent forces: 3 configurations x 3-5 bodies: step halving",
                         [p](bool t) { return !p->ext || t ? 9 : 3; }, [p](mc::Case& c, uint64_t i) { const_case(c, i, *p, true); }, 60});
    }
    return mc::main(argc, argv, s);
}
#endif
#if PROP == 3
// ---------------------------------------------------------------- S03: conservation laws and the calc:: diagnostics
struct Truth { LD T = 0, U = 0, M = 0, aL = 0, aP = 0; V3 com, p, L, liso; };
static Truth truth(Bodies const& b) {
    Truth t;
    size_t n = b.size();
    V3 c2, v2;
    for (size_t i = 0; i < n; ++i) {
        t.M += b[i].m;
        t.T += b[i].m * dotp(b[i].v, b[i].v) / 2;
        t.com += b[i].m * b[i].x, t.p += b[i].m * b[i].v, t.L += b[i].m * crossp(b[i].x, b[i].v);
        t.aL += b[i].m * normp(b[i].x) * normp(b[i].v), t.aP += b[i].m * normp(b[i].v);
        for (size_t j = i + 1; j < n; ++j) t.U += b[i].m * b[j].m / normp(b[i].x - b[j].x);
    }
    t.com = (1 / t.M) * t.com;
    LD m2 = b[0].m + b[n - 1].m;
    c2 = (1 / m2) * (b[0].m * b[0].x + b[n - 1].m * b[n - 1].x), v2 = (1 / m2) * (b[0].m * b[0].v + b[n - 1].m * b[n - 1].v);
    t.liso = b[0].m * crossp(b[0].x - c2, b[0].v - v2) + b[n - 1].m * crossp(b[n - 1].x - c2, b[n - 1].v - v2);
    return t;
}
struct Cons {
    Meth const& m;
    Truth t0;
    LD t00 = 0, E0 = 0, size = 0, aP = 0, eps;
    LD mE = 0, mL = 0, mP = 0, mX = 0, mC = 0;  // largest deviations: energy, angular momentum, momentum, centre of mass, calc::
    LD first = 0, last = 0;                     // energy error in the first and in the last tenth of the run
    LD rmin = 1e30L;
    std::string worst;
    size_t k = 0;
    Cons(Meth const& q) : m(q), eps(q.ext ? 1e-19L : 2.3e-16L) {}
    void see(Job const& j, Job::Obs const& o) {
        Truth t = truth(o.b);
        if (k++ == 0) {
            t0 = t, t00 = o.t, E0 = t.T - t.U;
            for (auto& b : o.b) size = std::max(size, normp(b.x));
        }
        LD x = 0, E = t.T - t.U, S = t.T + t.U;
        for (auto& b : o.b) x = std::max(x, normp(b.x));
        for (size_t i = 0; i < o.b.size(); ++i) for (size_t l = 0; l < i; ++l) rmin = std::min(rmin, normp(o.b[i].x - o.b[l].x));
        size = std::max(size, x), aP = std::max(aP, t.aP);
        LD e = std::fabs((E - E0) / E0);
        mE = std::max(mE, e);
        LD f = (o.t - t00) / (j.end - t00);
        if (f < .1L) first = std::max(first, e);
        if (f > .9L) last = std::max(last, e);
        mL = std::max(mL, normp(t.L - t0.L) / (size * aP));
        mP = std::max(mP, normp(t.p - t0.p) / aP);
        mX = std::max(mX, normp(t.com - (t0.com + ((o.t - t00) / t0.M) * t0.p)) / (size + (o.t - t00) * aP / t.M));
        auto cmp = [&](const char* w, LD got, LD want, LD scale) {
            LD d = std::fabs(got - want) / scale;
            if (!(d <= mC)) mC = d == d ? d : 1e30L, worst = fmt("%s is %.19Lg instead of %.19Lg in step %zu", w, got, want, k - 1);
        };
        auto cmpv = [&](const char* w, V3 got, V3 want, LD scale) {
            LD d = normp(got - want) / scale;
            if (!(d <= mC)) mC = d == d ? d : 1e30L, worst = fmt("%s is (%.17Lg,%.17Lg,%.17Lg) instead of (%.17Lg,%.17Lg,%.17Lg) in step %zu", w, got.x, got.y, got.z, want.x, want.y, want.z, k - 1);
        };
        // chain systems measure distances along the chain, whose rounding differs from the Cartesian one
        LD geo = 1 + x / rmin;
        cmp("calc_kinetic_energy", o.ekin, t.T, t.T);
        cmp("calc_potential_energy", o.epot, -t.U, t.U * geo);
        cmp("calc_total_energy", o.etot, E, S * geo);
        cmpv("calc_com(positions)", o.com, t.com, x);
        cmpv("calc_com(velocities)", o.vcom, (1 / t.M) * t.p, t.aP / t.M);
        cmpv("calc_total_angular_momentum", o.L, t.L, t.aL);
        cmpv("calc_isolated_angular_momentum", o.Liso, t.liso, 4 * t.aL);
        if (o.hasB) cmp("calc_energy_error", std::exp(o.err0), std::fabs((t.T + o.bindE) / t.U), (t.T + std::fabs(o.bindE)) / t.U * geo * (m.ext ? 100 : 1));  // through a logarithm
        else if (k > 1) cmp("calc_energy_error", o.err0, e, S / std::fabs(E0) * geo + (m.ext ? 1e4L * e : 0));
    }
};
#endif
#if PROP == 3
static void cons_judge(mc::Case& c, Meth const& m, Job const& j, Cons const& s, Res const& r, bool hard, bool bin, LD e, std::string const& tag) {
    LD N = 30 + r.steps, tol = m.constant ? 0 : (m.order <= 4 ? 1e5L : 2e4L) * (hard ? 20 : 1) * j.rtol, rnd = 10 * s.eps * N;
    bool sym = strstr(m.name, "Sym");
    c.states(r.steps);
    c.transitions(r.steps);
    std::string id = m.name;
    cal('C', m, s.mC / s.eps, tag), cal('P', m, s.mP / rnd, tag), cal('X', m, s.mX / rnd, tag);
    if (r.toolong) return c.fail(id + " no-end", tag + ": run does not end");
    c.check(s.mC <= 60 * s.eps, id + " calc", tag + ": " + s.worst);
    c.check(s.mP <= rnd, id + " momentum", tag + fmt(": total momentum changed by %.3Lg of its scale in %zu steps", s.mP, r.steps));
    c.check(s.mX <= rnd, id + " centre-of-mass", tag + fmt(": centre of mass leaves uniform motion by %.3Lg in %zu steps", s.mX, r.steps));
    // every drift and kick of a symplectic method conserves angular momentum exactly
    if (sym) cal('L', m, s.mL / rnd, tag), c.check(s.mL <= rnd, id + " angular-momentum", tag + fmt(": angular momentum changed by %.3Lg of its scale in %zu steps", s.mL, r.steps));
    else if (!m.constant) cal('M', m, s.mL / (tol + rnd), tag), c.check(s.mL <= tol + rnd, id + " angular-momentum", tag + fmt(": angular momentum changed by %.3Lg of its scale", s.mL));
    if (!m.constant) cal('E', m, s.mE / (tol + 20 * rnd), tag), c.check(s.mE <= tol + 20 * rnd, id + " energy", tag + fmt(": energy changed by %.3Lg (tolerance %.0Le)", s.mE, j.rtol));
    // the logarithmic Hamiltonian leapfrog stays on the exact two body orbit, and so do its compositions
    if (bin && m.constant && sym && m.regu) cal('A', m, s.mE / (10 * rnd / (1 - e)), tag), c.check(s.mE <= 10 * rnd / (1 - e), id + " exact-orbit", tag + fmt(": energy of a binary changed by %.3Lg in %zu steps", s.mE, r.steps));
    // constant steps: the energy error of a resolved orbit stays bounded
    if (bin && m.constant && sym && !m.regu && e < .7L) cal('B', m, s.last / (s.first * 1.5L + 10 * rnd), tag), c.check(s.last <= s.first * 1.5L + 10 * rnd, id + " drift", tag + fmt(": energy error grew from %.3Lg to %.3Lg", s.first, s.last));
    if (bin && m.constant && e < .7L) {
        LD lim = (m.order == 2 ? .02L : m.order == 4 ? 2e-3L : m.order == 8 ? 1e-2L : 1e-4L);
        cal('D', m, s.mE / lim, tag), c.check(s.mE <= lim, id + " energy", tag + fmt(": energy error %.3Lg", s.mE));
    }
    c.outcome(mc::Hasher()(r.steps)((double)s.mE).h);
}
static const LD CE[] = {0, .3, .6, .9}, CQ[] = {1, .3, 1e-3};
static uint64_t ncons(Meth const& m, bool t) { return m.ext && !t ? 6 + 3 : 48 + 12; }
static void cons_case(mc::Case& c, uint64_t i, Meth const& m) {
    Job j;
    bool full = !m.ext || c.thorough;
    LD P = 0, e = 0;
    uint64_t nb = full ? 48 : 6;
    std::string tag;
    bool bin = i < nb;
    if (bin) {
        mc::Dec d(i);
        LD q = .3L, ph = 2;
        int o = 1;
        if (full) { e = d.pick(CE), q = d.pick(CQ), ph = d(2) ? 2 : 0, o = d(2); }
        else { e = CE[1 + d(3)], q = CQ[d(2)]; }
        j.b = binary(e, ph, q, o, P);
        j.end = (LD)(double)((m.constant ? full ? 40 : 10 : 3) * P);
        if (m.constant) j.step = P / 128;
        j.rtol = m.order == 2 ? 1e-8L : i & 1 ? 1e-11L : 1e-8L;
        tag = fmt("%s binary e=%.1Lf q=%.3Lf phase=%.0Lf orient=%d", m.name, e, q, ph, o);
    } else {
        mc::Dec d(i - nb);
        int conf = d(3), n = full ? 3 + d(4) : 4;
        if (n == 6 && conf == 1 && m.constant) return;  // a close encounter that the constant step does not resolve
        j.b = cluster(conf, n);
        j.end = 2;
        if (m.constant) j.step = 1. / 256;
        j.rtol = m.order == 2 ? 1e-7L : 1e-10L;
        tag = fmt("%s conf=%d n=%d", m.name, conf, n);
    }
    j.fict = m.constant;
    c.sample(tag);
    Cons s(m);
    bool coarse = false;
    LD last = 0;
    j.obs = [&](Job::Obs const& o) {
        s.see(j, o);
        if (last != 0 && o.h < .695L * last && o.t < j.end - 1e-3L * std::fabs(j.end)) coarse = true;
        last = o.h;
    };
    auto r = m.run(j);
    if (coarse && !m.constant && m.order == 10) j.rtol = 1;
    cons_judge(c, m, j, s, r, e > .7L || j.b.size() > 5, bin, e, tag);
}
// symmetric constant step methods retrace their path when the velocities are reversed
static uint64_t nrev(Meth const& m, bool t) { return m.ext && !t ? 3 : 4 * 2 + 3 * 3; }
static void rev_case(mc::Case& c, uint64_t i, Meth const& m) {
    Job j;
    bool full = !m.ext || c.thorough;
    std::string tag;
    LD P;
    if (!full) i += 8 + 3;
    if (i < 8) {
        LD e = CE[i % 4];
        j.b = binary(e, 2, CQ[i / 4], 1, P);
        tag = fmt("%s binary e=%.1Lf q=%.1Lf", m.name, e, CQ[i / 4]);
    } else {
        int conf = (i - 8) % 3, n = 3 + (i - 8) / 3;
        j.b = cluster(conf, n);
        tag = fmt("%s conf=%d n=%d", m.name, conf, n);
    }
    c.sample(tag);
    j.step = m.order == 2 ? 1. / 256 : 1. / 64;
    j.end = 2;
    auto r = m.run(j);
    Job k = j;
    k.b = r.b;
    for (auto& b : k.b) b.v = -1 * b.v;
    auto q = m.run(k);
    for (auto& b : q.b) b.v = -1 * b.v;
    LD err = diff(q.b, j.b), lim = (m.ext ? 1e-19L : 2.3e-16L) * (m.order == 8 ? 3e9L : 3e5L) * (30 + r.steps);
    c.states(2);
    c.transitions(r.steps + q.steps);
    cal('R', m, err / lim, tag);
    c.check(err <= lim, m.name + std::string(" reversible"), tag + fmt(": does not return to the start, off by %.3Lg after %zu steps", err, r.steps));
    c.outcome(mc::Hasher()(r.steps)((double)err).h);
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    for (auto& m : pure()) {
        Meth const* p = &m;
        s.push_back({m.name + std::string(" conservation"), "binaries e {0,.3,.6,.9} x mass ratio {1,.3,1e-3} x phase x orientation and bulk motion, 3 clusters x 3-6 bodies; every step: momentum, centre of mass, angular momentum, energy, calc:: diagnostics",
                     [p](bool t) { return ncons(*p, t); }, [p](mc::Case& c, uint64_t i) { cons_case(c, i, *p); }, 60});
        if (m.constant && !m.regu && strstr(m.name, "Sym"))
            s.push_back({m.name + std::string(" reversible"), "binaries and clusters x 3-5 bodies, forwards and back", [p](bool t) { return nrev(*p, t); }, [p](mc::Case& c, uint64_t i) { rev_case(c, i, *p); }, 60});
    }
    return mc::main(argc, argv, s);
}
#endif

#if PROP == 4
// ---------------------------------------------------------------- S04: symmetries of the equations of motion
// Each of these maps takes a problem to another one whose solution is the image of the first one's. Those before SPIN
// only change signs and exponents, so that a correct integrator takes the very same steps (the step control of IAS15 compares
// positions with velocities, so that it depends on the units: only the result is compared there).
enum { REV, MIRX, MIRYZ, SCALE, MASS, EXACT, SPIN = EXACT, PERM, BOOST, SPECT, SHIFT, TWICE, NSYM };
static const char* const SYM[] = {"time reversal", "mirror x", "mirror y and z", "scaled x4 t8", "scaled m16 x4 t2", "axes rotated", "particles reordered", "moving frame", "massless particle added", "later start", "two runs"};
static Job image(Job const& a, int s, bool forward = true) {
    Job j = a;
    auto each = [&](auto f) { for (auto& b : j.b) f(b); };
    auto time = [&](LD k) { j.t0 *= k, j.end *= k, j.step *= k; };
    if (s == REV) each([](Body& b) { b.v = -1 * b.v; }), time(-1);
    else if (s == MIRX) each([](Body& b) { b.x.x *= -1, b.v.x *= -1; });
    else if (s == MIRYZ) each([](Body& b) { b.x.y *= -1, b.v.y *= -1, b.x.z *= -1, b.v.z *= -1; });
    else if (s == SCALE) each([&](Body& b) { LD k = forward ? 4 : .25L, l = forward ? .5L : 2; b.x = k * b.x, b.v = l * b.v; }), time(forward ? 8 : .125L);
    else if (s == MASS) each([&](Body& b) { LD k = forward ? 4 : .25L; b.m *= k * k, b.x = k * b.x, b.v = (forward ? 2 : .5L) * b.v; }), time(forward ? 2 : .5L);
    else if (s == SPIN) each([&](Body& b) { auto c = [&](V3 u) { return forward ? V3{u.y, u.z, u.x} : V3{u.z, u.x, u.y}; }; b.x = c(b.x), b.v = c(b.v); });
    else if (s == PERM) std::reverse(j.b.begin(), j.b.end());
    else if (s == BOOST) each([&](Body& b) {  // a frame that moves with the velocity u and has its origin elsewhere
        V3 u{.25L, -.5L, .125L}, o{-2, .5L, 1};
        LD k = forward ? 1 : -1;
        b.x += k * (o + j.t0 * u), b.v += k * u;
    });
    else if (s == SPECT) {
        if (forward) j.b.push_back({0, {7, -5, 3}, {.125L, -.25L, .5L}});
        else j.b.pop_back();
    } else if (s == SHIFT) j.t0 += forward ? 8 : -8, j.end += forward ? 8 : -8;
    else if (s == TWICE) j.mid = j.t0 + .4375L * (j.end - j.t0);
    return j;
}
static uint64_t nsym(Meth const& m, bool t) { return t ? 2 * 4 * (m.ext ? 6 : 15) : m.ext ? 4 : 12; }
static void sym_case(mc::Case& c, uint64_t i, Meth const& m, bool f) {
    Job j;
    std::string tag;
    int st, tl;
    mc::Dec d(i);
    uint64_t k;
    if (c.thorough) st = d(2), tl = d(2), j.t0 = d(2) ? .5 : 0, k = m.ext ? (d(6) * 5) % 14 : d(15);
    else st = i & 1, tl = (i / 2) & 1, j.t0 = i % 3 == 1 ? .5 : 0, k = m.ext ? (i * 5) % 14 : i + (i > 8);
    LD P = 0, T;
    if (k < 3) {
        LD e = ES[k + 1];
        j.b = binary(e, 2, CQ[k], 1, P);
        T = 1.5L * P;
        tag = fmt("%s binary e=%.1Lf q=%.3Lf", m.name, e, CQ[k]);
    } else {
        int conf = k % 3, n = 2 + (k - 3) / 3;
        j.b = cluster(conf, n);
        T = 1.25;
        tag = fmt("%s conf=%d n=%d", m.name, conf, n);
    }
    for (auto& b : j.b) b.m = (LD)(double)b.m;
    j.end = (LD)(float)(j.t0 + T);
    tols(m, tl, j);
    if (m.constant) j.step = 1. / (m.order == 2 ? 512 : 128), j.fict = true;
    else if (st) j.step = m.order == 2 ? 1e-4 : 1. / 1024, j.fict = true;
    tag += fmt("%s t0=%.1Lf rtol=%.0Le step=%.3Lg", f ? " with external forces" : "", j.t0, j.rtol, j.step);
    c.sample(tag);
    auto run = [&](Job q, bool& coarse) {
        if (m.constant) return coarse = false, m.run(q);
        Watch w(m, q);
        auto r = m.run(q);
        coarse = w.coarse;
        return r;
    };
    bool coarse0;
    auto r0 = run(j, coarse0);
    c.states();
    c.transitions(r0.steps);
    bool ias = !m.constant && strstr(m.name, "Radau");
    for (int s = 0; s < NSYM; ++s) {
        if (f && s != REV && s < SHIFT) continue;  // (external forces would drive an added particle into the others)
        if (m.constant && s == TWICE) continue;  // the step that ends the first run is a different one
        if (m.constant && s == BOOST && strstr(m.name, "AR")) continue;  // the fictitious time depends on the frame
        bool coarse, exact = s < EXACT && !(ias && (s == SCALE || s == MASS));
        Mag::odd = s == REV ? -1 : 1;
        Job q = image(j, s);
        q.max_steps = 30 * r0.steps + 3000;
        auto r = run(q, coarse);
        Mag::odd = 1;
        c.states();
        c.transitions(r.steps);
        std::string t = tag + " " + SYM[s], key = m.name + std::string(" ") + SYM[s];
        if (r.toolong != r0.toolong) { c.fail(key, t + fmt(": %zu steps, %zu without it", r.steps, r0.steps)); continue; }
        Job back = q;
        back.b = r.b, back.t0 = r.t;
        if (s != TWICE) back = image(back, s, false);
        // compare at the time of the first run
        Bodies b = back.b;
        LD dt = r0.t - back.t0;
        c.check(std::fabs(dt) <= 1.1e-9L * (std::fabs(j.end) + std::fabs(q.end / (s == SCALE ? 8 : s == MASS ? 2 : 1))), key, t + fmt(": ends at %.17Lg instead of %.17Lg", back.t0, r0.t));
        if (!exact) {
            Acc a = RefSol{f}.acc(b);
            for (size_t k = 0; k < b.size(); ++k) b[k].x += dt * b[k].v + (dt * dt / 2) * a[k], b[k].v += dt * a[k];
        }
        LD err = diff(b, r0.b), fl = floor_of(m, r0.steps), tol = j.rtol + j.atol;
        bool same = exact && r.steps == r0.steps;
        LD lim = m.constant ? (s == SHIFT ? 2e4L : 1e3L) * fl : same ? 100 * fl : .2L * allow(m, true) * tol + 20 * fl;
        if (!exact && (coarse || coarse0)) continue;
        cal(same ? 'S' : 'D', m, err / lim, t + fmt(" steps %zu %zu", r0.steps, r.steps));
        c.check(err <= lim, key, t + fmt(": the final states differ by %.3Lg (%zu and %zu steps)", err, r0.steps, r.steps));
        size_t hi = std::max(r.steps, r0.steps), lo = std::min(r.steps, r0.steps);
        if (exact) c.check(hi - lo <= (m.constant ? 1 : 3 + .1L * lo), key, t + fmt(": %zu steps, %zu without it", r.steps, r0.steps));
        c.outcome(mc::Hasher()(r.steps)((double)err)(s).h);
    }
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    const char* B = "binaries e {.3,.6,.9} and 3 configurations x 2-5 bodies x first step {auto, given} x tolerance x start time, each against its image under time reversal, two mirrorings, two exact scalings, rotated axes, reordered particles, a moving frame, an added massless particle, a later start and an interrupted run";
    for (auto& m : pure()) {
        Meth const* p = &m;
        s.push_back({m.name + std::string(" symmetries"), B, [p](bool t) { return nsym(*p, t); }, [p](mc::Case& c, uint64_t i) { sym_case(c, i, *p, false); }, 60});
    }
    for (auto& m : forced()) {
        Meth const* p = &m;
        s.push_back({m.name + std::string(" symmetries, forces"), "the same with harmonic and velocity dependent forces: time reversal (with the terms odd in the velocities reversed), a later start and an interrupted run", [p](bool t) { return nsym(*p, t); }, [p](mc::Case& c, uint64_t i) { sym_case(c, i, *p, true); }, 60});
    }
    return mc::main(argc, argv, s);
}
#endif
