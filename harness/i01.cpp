// I01: fixed step integrators.  The drift/kick sequence of every symplectic integrator is recorded on a recording
// system and checked against every order condition (all words in the two generators up to its order); the Gauss-Radau
// integrator is checked on every time polynomial it must integrate exactly; all of them on real systems for
// reversibility and order of convergence.  -DGROUP selects the part compiled.
#include "phys.hpp"
#ifndef GROUP
#define GROUP 0
#endif
namespace in = hub::integrator;
using TS = hub::Types<double>;
using system::ReguType;
using Pt = particles::PointParticles<TS>;
using Nw = force::NewtonianGrav;
template <typename A> static std::vector<double> dbl(A const& a) { std::vector<double> r; for (auto const& x : a) r.push_back((double)x); return r; }
template <typename S> static std::vector<double> state(S& s) { typename S::StateScalarArray a; s.write_to_scalar_array(a); return dbl(a); }
template <typename F> static void each_symplectic(F f) {
    f((in::Symplectic2nd<TS>*)0, 2, "Symplectic2nd");
    f((in::LeapFrogDKD<TS>*)0, 2, "LeapFrogDKD");
    f((in::LeapFrogKDK<TS>*)0, 2, "LeapFrogKDK");
    f((in::Symplectic4th<TS>*)0, 4, "Symplectic4th");
    f((in::Symplectic6th<TS>*)0, 6, "Symplectic6th");
    f((in::Symplectic8th<TS>*)0, 8, "Symplectic8th");
    f((in::Symplectic10th<TS>*)0, 10, "Symplectic10th");
}
static const int NSYM = 7;
template <typename F> static void nth_symplectic(int k, F f) { int i = 0; each_symplectic([&](auto* p, int o, const char* n) { if (i++ == k) f(p, o, n); }); }

#if GROUP == 0
struct Op { char k; LD h; };
static std::vector<Op> ops;
struct RecSys : system::SimpleSystem<Pt, DefaultForce> {
    using B = system::SimpleSystem<Pt, DefaultForce>;
    using B::B;
    void drift(Scalar h) { ops.push_back({'d', (LD)h}); }
    void kick(Scalar h) { ops.push_back({'k', (LD)h}); }
};
static std::vector<Op> canon(std::vector<Op> const& o) {  // merge neighbours of a kind, drop nothing-steps
    std::vector<Op> r;
    for (auto& x : o) {
        if (x.h == 0) continue;
        if (!r.empty() && r.back().k == x.k) r.back().h += x.h;
        else r.push_back(x);
    }
    return r;
}
static const double H[] = {1, -1, 0.37, 1e-7, 12345.678, -3e5, 1.0 / 3, 2e-300};
template <typename I> static std::vector<Op> rec(I& it, double h) {
    RecSys s(0.0, std::vector<Pt::Particle>{Pt::Particle{1, 0, 0, 0}, Pt::Particle{1, 1, 0, 0}});
    ops.clear();
    it.integrate(s, h);
    return canon(ops);
}
static void sequence(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int k = d(NSYM);
    double h = d.pick(H);
    nth_symplectic(k, [&](auto* p, int order, const char* nm) {
        std::decay_t<decltype(*p)> it;
        std::string in_ = fmt("%s step %g", nm, h);
        c.sample(in_);
        c.check((int)it.order == order, fmt("%s order", nm), fmt("declared order %d", (int)it.order));
        auto o = rec(it, h), o1 = rec(it, 1.0), o2 = rec(it, h);
        c.transitions(o.size());
        LD sd = 0, sk = 0, mx = 0;
        for (auto& x : o) (x.k == 'd' ? sd : sk) += x.h, mx = std::max(mx, fabsl(x.h));
        c.check(fabsl(sd - h) <= 1e-14L * fabsl(h) * o.size(), fmt("%s drift sum", nm), in_ + fmt(": drifts add up to %.17Lg", sd));
        c.check(fabsl(sk - h) <= 1e-14L * fabsl(h) * o.size(), fmt("%s kick sum", nm), in_ + fmt(": kicks add up to %.17Lg", sk));
        for (size_t a = 0, b = o.size() - 1; a < b; ++a, --b)
            if (o[a].k != o[b].k || fabsl(o[a].h - o[b].h) > 4e-16L * mx * 4) { c.fail(fmt("%s symmetric", nm), in_ + fmt(": substeps %zu and %zu differ", a, b)); break; }
        bool lin = o.size() == o1.size(), same = o.size() == o2.size();
        for (size_t a = 0; lin && a < o.size(); ++a) lin = o[a].k == o1[a].k && fabsl(o[a].h - o1[a].h * h) <= 1e-14L * mx;
        for (size_t a = 0; same && a < o.size(); ++a) same = o[a].k == o2[a].k && o[a].h == o2[a].h;
        c.check(lin, fmt("%s proportional", nm), in_ + ": substeps are not those of the unit step times the step");
        c.check(same, fmt("%s memory", nm), in_ + ": a second step of an integrator differs from the first");
        if (o.size() > 200 || o.empty()) { c.fail(fmt("%s stages", nm), in_); return; }
        // product of exponentials, coefficient of every word of length <= order
        size_t N = (2u << order);  // words coded as 1b...b
        std::vector<LD> w(N, 0), v(N);
        w[1] = 1;
        for (auto& x : o) {
            LD hc = x.h / h;
            std::fill(v.begin(), v.end(), 0);
            for (size_t s = 1; s < N; ++s) {
                if (w[s] == 0) continue;
                LD f = w[s];
                size_t t = s;
                for (int j = 1; t < N; ++j) {
                    v[t] += f;
                    f *= hc / j;
                    t = t * 2 + (x.k == 'k');
                }
            }
            w.swap(v);
        }
        LD fact = 1;
        int len = 0;
        double worst = 0;
        for (size_t s = 1; s < N; ++s) {
            int l = 63 - __builtin_clzll(s);
            if (l != len) len = l, fact *= l;
            LD e = fabsl(w[s] - 1 / fact);
            worst = std::max(worst, (double)e);
            c.states();
            if (!(e <= 2e-12L)) {
                c.fail(fmt("%s order conditions", nm), in_ + fmt(": a condition of order %d is violated by %.3Lg", l, e));
                break;
            }
        }
        if (c.verbose) fprintf(stderr, "%s %g: %.3g\n", nm, h, worst);
        c.outcome(mc::Hasher()(k)(h).h);
    });
}
// Gauss-Radau --------------------------------------------------------------------------------------------------------
static double pc_[6][2][16];  // polynomial coefficients of the accelerations (x,y of each particle) in t/ts
static double ts_ = 1, t00_ = 0;
static LD poly(double const* a, LD t) { LD r = 0; for (int k = 15; k >= 0; --k) r = r * t + a[k]; return r; }
struct TimeForce {
    static constexpr bool vel_dependent{false};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) {
            LD t = ((LD)p.time() - t00_) / ts_;
            a[i].x += (double)poly(pc_[i][0], t), a[i].y += (double)poly(pc_[i][1], t);
        }
    }
};
using TSys = system::SimpleSystem<Pt, force::Interactions<TimeForce>>;
using GR = in::GaussRadau<TS>;
static TSys tsys(double t0) {
    return TSys{t0, std::vector<Pt::Particle>{Pt::Particle{1, 0.1, 0.2, 0.3, 0.5, -0.2, 0.7}, Pt::Particle{2, -0.3, 0, 0.1, 0, 0.25, -0.5}}};
}
static const double RS[] = {0.5, -0.5, 1, 0.125, -2}, RT[] = {0, 0.75, -1};
static void setpoly(int deg, int deg2, int mode) {
    for (auto& x : pc_) for (auto& y : x) for (double& z : y) z = 0;
    pc_[0][0][deg] = 1;
    pc_[0][1][deg2] = -0.5;
    pc_[1][0][deg2] = 0.25, pc_[1][0][0] += mode;
    pc_[1][1][deg] = 2, pc_[1][1][mode ? deg / 2 : 1] += 1;
}
// velocities exact up to degree 14 of the acceleration, positions up to 13
static void radau_exact(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int deg = d(15), deg2 = d(15), mode = d(2);
    double h = d.pick(RS), t0 = d.pick(RT);
    bool viaiter = d(2);
    setpoly(deg, deg2, mode);
    ts_ = fabs(h) < 1 ? 1 : fabs(h), t00_ = t0;
    if (mode) t00_ = t0 - 0.25;
    auto p = tsys(t0);
    GR g;
    hub::ode::ConstOdeIterator<GR> it;
    std::string in_ = fmt("acceleration of degree %d/%d in time, step %g from t=%g", deg, deg2, h, t0);
    c.sample(in_);
    auto q0 = state(p);
    LD T = t0;
    for (int st = 0; st < 3; ++st) {
        if (viaiter) { double r = it.iterate(p, h); c.check(r == h, "const step returned", in_ + fmt(": returned %g", r)); } else g.integrate(p, h);
        T += h;
        c.states(), c.transitions();
        LD big = 1, e = 0;
        c.check(fabsl(p.time() - T) <= 1e-14L * (1 + fabsl(T)), "Radau time", in_ + fmt(": step %d ends at %.17g", st, (double)p.time()));
        for (int j = 0; j < 2; ++j)
            for (int x = 0; x < 3; ++x) {
                // exact integrals of the polynomial
                LD I1 = 0, I2 = 0;
                int dg = 0;
                if (x < 2) {
                    LD a = ((LD)t0 - t00_) / ts_, b = (T - t00_) / ts_;
                    for (int k = 0; k < 16; ++k)
                        if (pc_[j][x][k] != 0) {
                            dg = k;
                            I1 += pc_[j][x][k] * (powl(b, k + 1) - powl(a, k + 1)) / (k + 1) * ts_;
                            I2 += pc_[j][x][k] * ((powl(b, k + 2) - powl(a, k + 2)) / ((k + 1) * (k + 2)) - powl(a, k + 1) / (k + 1) * (b - a)) * ts_ * ts_;
                            big = std::max(big, std::max(fabsl(powl(b, k + 1)), fabsl(powl(a, k + 1))));
                        }
                }
                LD v0 = q0[1 + 6 + j * 3 + x], x0 = q0[1 + j * 3 + x], v = x == 0 ? p.vel(j).x : x == 1 ? p.vel(j).y : p.vel(j).z, r = x == 0 ? p.pos(j).x : x == 1 ? p.pos(j).y : p.pos(j).z;
                e = std::max(e, fabsl(v - v0 - I1) / big);
                if (dg <= 13) e = std::max(e, fabsl(r - x0 - v0 * (T - t0) - I2) / big);
            }
        if (c.verbose) fprintf(stderr, "E %Lg\n", e);
        if (!(e <= 1e-12L)) { c.fail("Radau exactness", in_ + fmt(": step %d misses the exact solution by %.3Lg", st, e)); return; }
    }
    c.outcome(mc::Hasher()(deg)(deg2).h);
}
// b coefficients and their prediction for the next step
static void radau_b(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    static const double QS[] = {1, 0.25, 0.5, 1.5, 2, 4};
    int deg = d(8), deg2 = d(8);
    double h = d.pick(RS), q1 = d.pick(QS), q2 = d.pick(QS), q3 = d.pick(QS);
    setpoly(deg, deg2, 1);
    ts_ = fabs(h) * 4, t00_ = 0.3;
    auto p = tsys(0.5);
    GR g;
    std::string in_ = fmt("acceleration of degree %d/%d, steps %g x (1,%g,%g,%g)", deg, deg2, h, q1, q2, q3);
    c.sample(in_);
    double hh = h, T = 0.5, q[3] = {q1, q2, q3};
    for (int st = 0; st < 4; ++st) {
        auto expected = [&](int idx, int j) -> LD {  // b_j of acceleration component idx: Taylor coefficients about T in units of the step
            double const* a = pc_[idx / 2][idx % 2];
            LD s0 = (T - (LD)t00_) / ts_, r = 0, hs = hh / ts_;
            for (int k = j; k < 16; ++k) {
                if (a[k] == 0) continue;
                LD bin = 1;
                for (int l = 1; l <= j; ++l) bin = bin * (k - j + l) / l;
                r += a[k] * bin * powl(s0, k - j) * powl(hs, j);
            }
            return r;
        };
        static const int at[4] = {7, 8, 10, 11};
        auto cmp = [&](const char* what, double tol) {
            for (int j = 1; j <= 7; ++j)
                for (int a = 0; a < 4; ++a) {
                    LD e = expected(a, j), v = g.b()[j - 1][at[a]];
                    if (!(fabsl(e - v) <= tol * (1 + fabsl(e)))) { c.fail(fmt("Radau %s", what), in_ + fmt(": step %d, b%d of component %d is %.15Lg, expected %.15Lg", st, j - 1, a, v, e)); return false; }
                }
            return true;
        };
        c.states();
        double amp = 1;
        for (int k = 0; k < st; ++k) amp *= std::pow(std::max(1.0, q[k]), 7);  // growth of round-off in an extrapolation
        if (st >= 2 && !cmp("prediction", 2e-9 * amp)) return;
        for (int k = 0; k < 12; ++k) g.correct(p, hh), c.transitions();
        if (!cmp("coefficients", 2e-9 * amp)) return;
        g.evaluate(p, hh);
        T += hh;
        if (st < 3) g.predict(q[st]), hh *= q[st];
    }
    c.outcome(mc::Hasher()(deg)(deg2)(h).h);
}
static void radau_tables(mc::Case& c, uint64_t i) {
    using R = in::Radau;
    using V = std::vector<double>;
    std::array<V, 7> b, g, b2;
    mc::Dec d(i);
    for (int k = 0; k < 7; ++k) b[k] = V(2, 0), g[k] = V(2, 0), b2[k] = V(2, 0);
    int m = d(128);
    for (int k = 0; k < 7; ++k) if (m >> k & 1) b[k][0] = 1 + 0.25 * k, b[k][1] = -2.0 + k;
    R::transform_b2g(b, g);
    // g are the divided differences (Newton form) of s*b0+s^2*b1+...: evaluate both at a grid of s
    double hs[8] = {0};
    for (int k = 0; k < 7; ++k) hs[k + 1] = R::h(k);
    for (int e = 0; e < 2; ++e)
        for (LD s = -0.5; s <= 1.5; s += 0.125L) {
            LD x = 0, y = 0, f = 1;
            for (int k = 6; k >= 0; --k) x = (x + b[k][e]) * s;
            for (int k = 0; k < 7; ++k) { f *= s - hs[k]; y += g[k][e] * f; }
            c.check(fabsl(x - y) <= 1e-13L * (1 + fabsl(x)) * 20, "Radau b to g", fmt("mask %d at %Lg: %Lg, %Lg", m, s, x, y));
        }
    R::transform_g2b(g, b2);
    for (int k = 0; k < 7; ++k) for (int e = 0; e < 2; ++e) c.check(fabs(b[k][e] - b2[k][e]) <= 1e-12, "Radau g to b", fmt("mask %d coefficient %d", m, k));
    c.states();
    c.outcome(m);
}
int main(int argc, char** argv) {
    return mc::main(argc, argv, {
        {"sequence", "7 symplectic integrators x 8 steps (both signs, 1e-300..3e5): all order conditions (every word in drift and kick up to the order), symmetry, sums, proportionality", [](bool) { return (uint64_t)NSYM * 8; }, sequence},
        {"radau/exact", "accelerations t^j, t^k for all j,k <= 14 x steps {.5,-.5,1,.125,-2} x start times, 3 consecutive steps, direct and through ConstOdeIterator", [](bool) { return 15ull * 15 * 2 * 5 * 3 * 2; }, radau_exact},
        {"radau/b", "accelerations of all degrees j,k <= 7 x steps x all step ratios {1,.25,.5,1.5,2,4}^3: converged and predicted coefficients", [](bool) { return 8ull * 8 * 5 * 216; }, radau_b},
        {"radau/tables", "all subsets of b coefficients: b<->g transforms against the Newton form", [](bool) { return 128ull; }, radau_tables},
    });
}
#else
// reversibility and convergence on real systems ------------------------------------------------------------------------
template <typename Sys> static Sys build(int conf, int n) {
    using P = typename Sys::Particle;
    std::vector<P> v;
    for (int j = 0; j < n; ++j) v.push_back(mkpoint<P>(start(conf, j)));
    return Sys{(typename Sys::Scalar)0.25, v};
}
template <typename Sys> static LD phys_unit(Sys& s) {  // fictitious time per physical time
    if constexpr (IsRegu<Sys>::value) {
        typename Sys::StateScalarArray y;
        s.evaluate_general_derivative(y);
        return 1 / (LD)ld(y[0]);
    } else return 1;
}
template <typename Sys>
static void reversible(mc::Case& c, uint64_t i, std::string const& tn) {
    mc::Dec d(i);
    int k = d(NSYM), conf = d(3), n = 2 + d(3);
    static const double HR[] = {0.05, -0.05, 0.2, 0.01};
    double h = d.pick(HR);
    int m = 1 + d(3);
    nth_symplectic(k, [&](auto* p, int, const char* nm) {
        std::decay_t<decltype(*p)> it;
        auto s = build<Sys>(conf, n);
        LD hs = h * phys_unit(s);
        std::string in_ = fmt("%s %s conf %d n=%d step %g x %d", tn.c_str(), nm, conf, n, h, m);
        c.sample(in_);
        s.pre_iter_process();
        auto y0 = state(s);
        for (int j = 0; j < m; ++j) it.integrate(s, (typename Sys::Scalar)hs), c.transitions();
        auto y1 = state(s);
        for (int j = 0; j < m; ++j) it.integrate(s, -(typename Sys::Scalar)hs), c.transitions();
        auto y2 = state(s);
        double e = 0, mv = 0;
        for (size_t j = 0; j < y0.size(); ++j) e = std::max(e, fabs(y2[j] - y0[j]) / (1 + fabs(y0[j]))), mv = std::max(mv, fabs(y1[j] - y0[j]));
        c.states();
        c.check(mv > 1e-4, tn + " " + nm + " moves", in_);
        if (c.verbose) fprintf(stderr, "R %s %g\n", in_.c_str(), e);
        c.check(e <= 2e-9, tn + " " + nm + " reversible", in_ + fmt(": after stepping forth and back the state is off by %.3g", e));
        c.outcome(mc::Hasher()(y1[1]).h);
    });
}
template <typename D> struct RefSol {  // classical RK4 with small steps in long double, tabulated lazily
    Bodies b;
    LD t = 0.25;
    static void der(Bodies const& b, Acc& a) { a.assign(b.size(), V3{}); ref::newton(b, a); D::ref(b, a); }
    void step(LD h) {
        size_t n = b.size();
        Acc k1(n), k2(n), k3(n), k4(n);
        Bodies c = b;
        der(c, k1);
        auto at = [&](LD f, Acc const& v, Acc const& a) { for (size_t i = 0; i < n; ++i) c[i].x = b[i].x + f * v[i], c[i].v = b[i].v + f * a[i]; };
        Acc v1(n), v2(n), v3_(n), v4(n);
        for (size_t i = 0; i < n; ++i) v1[i] = b[i].v;
        at(h / 2, v1, k1), der(c, k2);
        for (size_t i = 0; i < n; ++i) v2[i] = c[i].v;
        at(h / 2, v2, k2), der(c, k3);
        for (size_t i = 0; i < n; ++i) v3_[i] = c[i].v;
        at(h, v3_, k3), der(c, k4);
        for (size_t i = 0; i < n; ++i) v4[i] = c[i].v;
        for (size_t i = 0; i < n; ++i) {
            b[i].x += (h / 6) * (v1[i] + 2 * v2[i] + 2 * v3_[i] + v4[i]);
            b[i].v += (h / 6) * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
        }
        t += h;
    }
    void go(LD te, int n) { for (LD h = (te - t) / n; n-- > 0;) step(h); }
    void to(LD te) {  // with one Richardson extrapolation
        if (te == t) return;
        int n = (int)std::ceil(fabsl(te - t) / 1e-4L);
        RefSol o = *this;
        o.go(te, n), go(te, 2 * n);
        for (size_t i = 0; i < b.size(); ++i) b[i].x += (1 / 15.0L) * (b[i].x - o.b[i].x), b[i].v += (1 / 15.0L) * (b[i].v - o.b[i].v);
    }
};
template <typename Sys, typename D, typename It, int conf, int n>
static double err_at(LD T, int N, LD& tend) {
    auto s = build<Sys>(conf, n);
    hub::ode::ConstOdeIterator<It> it;
    typename Sys::Scalar h = (typename Sys::Scalar)(T * phys_unit(s) / N);
    for (int j = 0; j < N; ++j) {
        s.pre_iter_process();
        it.iterate(s, h);
        s.post_iter_process();
    }
    tend = ld(s.time());
    RefSol<D> r;
    for (int j = 0; j < n; ++j) r.b.push_back(start(conf, j));
    r.to(tend);
    LD e = 0;
    for (int j = 0; j < n; ++j) e = std::max(e, std::max(normp(v3(s.pos(j)) - r.b[j].x), normp(v3(s.vel(j)) - r.b[j].v)));
    return (double)e;
}
template <typename Sys, typename D, typename It>
static void converge1(mc::Case& c, std::string const& tn, const char* nm, int order, int dir) {
    std::string in_ = fmt("%s %s %s", tn.c_str(), nm, dir > 0 ? "forwards" : "backwards");
    c.sample(in_);
    std::vector<double> e;
    std::vector<int> ns;
    LD T = 0.5L * dir, tend;
    for (int N = order > 8 ? 2 : 4; N <= (order > 10 ? 16 : order > 4 ? 256 : 512); N *= 2) {
        ns.push_back(N), e.push_back(err_at<Sys, D, It, 1, 3>(T, N, tend));
        c.states(), c.transitions(N);
        if (c.verbose) fprintf(stderr, "V %s N=%d err %.3g\n", in_.c_str(), N, e.back());
        if (e.back() < 2e-12) break;
    }
    // slope between the last two resolutions above round-off, and overall smallness
    size_t l = e.size() - 1;
    while (l > 1 && e[l] < 3e-12) --l;
    bool round = e.back() < 1e-11;
    double last = log2(e[l - 1] / e[l]);
    c.check(round || last > order - 1.0, tn + " " + nm + " convergence", in_ + fmt(": error %.3g with %d steps, %.3g with %d, order %d", e[l - 1], ns[l - 1], e[l], ns[l], order));
    c.outcome(mc::Hasher()(e[0]).h);
}
template <typename Sys, typename D> static void converge(mc::Case& c, uint64_t i, std::string const& tn) {
    mc::Dec d(i);
    int k = d(NSYM + 1), dir = d(2) ? -1 : 1;
    if (k == NSYM) converge1<Sys, D, in::GaussRadau<TS>>(c, tn, "GaussRadau", 15, dir);
    else nth_symplectic(k, [&](auto* p, int o, const char* nm) { converge1<Sys, D, std::decay_t<decltype(*p)>>(c, tn, nm, o, dir); });
}
template <typename P, typename F, typename D> static void systems(std::vector<mc::Suite>& s, std::string f, bool rev) {
    auto add = [&](auto* p, std::string tn) {
        using Sys = std::decay_t<decltype(*p)>;
        tn += f;
        if (rev) s.push_back({"reversible " + tn, "7 integrators x 3 configurations x 2-4 bodies x 4 steps x 1-3 steps forth and back", [](bool) { return (uint64_t)NSYM * 9 * 12; }, [=](mc::Case& c, uint64_t i) { reversible<Sys>(c, i, tn); }});
        s.push_back({"order " + tn, "8 integrators, both directions, step halved repeatedly, against an independent solution", [](bool) { return (uint64_t)(NSYM + 1) * 2; }, [=](mc::Case& c, uint64_t i) { converge<Sys, D>(c, i, tn); }});
    };
    add((system::SimpleSystem<P, F>*)0, "Simple");
    add((system::ChainSystem<P, F>*)0, "Chain");
    add((system::RegularizedSystem<P, F, ReguType::LogH>*)0, "Regu LogH");
    add((system::ARchainSystem<P, F, ReguType::LogH>*)0, "ARchain LogH");
    add((system::RegularizedSystem<P, F, ReguType::TTL>*)0, "Regu TTL");
    add((system::ARchainSystem<P, F, ReguType::TTL>*)0, "ARchain TTL");
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
#if GROUP == 1
    systems<Pt, force::Interactions<Nw>, RefNone>(s, " Newton", true);
#elif GROUP == 2
    systems<Pt, force::Interactions<Nw, Harm>, Harm>(s, " Newton+ext", true);
#elif GROUP == 3
    systems<Pt, force::Interactions<Nw, Mag>, Mag>(s, " Newton+vel", true);
#endif
    return mc::main(argc, argv, std::move(s));
}
#endif
