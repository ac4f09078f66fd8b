// O05: random generators under every scripted engine outcome
#include "script_engine.hpp"
#include "mc.hpp"
#include "spaceHub.hpp"
using LD = long double;
namespace rnd = hub::random;
static const LD PI = 3.14159265358979323846264338327950288L;
static const uint32_t W[] = {0, 1, 0x40000000, 0x7fffffff, 0x80000000, 0xc0000001, 0xfffff7ff, 0xffffffff};
enum { NW = 8 };
static std::vector<uint32_t> word(mc::Dec& d, int n) {
    std::vector<uint32_t> s;
    for (int i = 0; i < n; ++i) s.push_back(d.pick(W));
    return s;
}
static std::string show(std::vector<uint32_t> const& s) {
    std::string t = "engine";
    for (auto x : s) t += mc::fmt(" %08x", x);
    return t;
}
// ---- inverse transforms: Uniform, Logarithm, PowerLaw
struct Law { int kind; double p, lo, hi; };
static std::vector<Law> const& laws() {
    static const std::vector<Law> v = [] {
        std::vector<Law> r;
        static const double L[][2] = {{0, 1}, {-3, 7}, {-1, 1}, {1, 1}, {5, 5.000001}, {-1e300, 1e-3}, {1e-290, 1e-289}, {-2, -1}};
        for (auto& l : L) r.push_back({0, 0, l[0], l[1]});
        static const double P[][2] = {{1, 10}, {1e-5, 1e5}, {.3, .3}, {2, 2.5}, {1e-100, 1e100}, {1e3, 1e4}};
        for (auto& l : P) r.push_back({1, 0, l[0], l[1]});
        for (double p : {-3.5, -2.35, -2., -1.02, -1.0005, -1., -.9997, -.97, -.5, 0., 1., 2., 3.}) for (auto& l : P) if (l[1] < 1e50) r.push_back({2, p, l[0], l[1]});
        for (double p : {.5, 1., 2.}) r.push_back({2, p, 0, 10});
        return r;
    }();
    return v;
}
static double draw(Law const& l) { return l.kind == 0 ? rnd::Uniform(l.lo, l.hi) : l.kind == 1 ? rnd::Logarithm(l.lo, l.hi) : rnd::PowerLaw(l.p, l.lo, l.hi); }
static LD cdf(Law const& l, LD x) {
    if (l.kind == 0) return (x - l.lo) / ((LD)l.hi - l.lo);
    if (l.kind == 1 || l.p == -1) return logl(x / l.lo) / logl((LD)l.hi / l.lo);
    LD b = l.p + 1;
    return (powl(x, b) - powl(l.lo, b)) / (powl(l.hi, b) - powl(l.lo, b));
}
static void inverse(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto& l = d.pick(laws());
    auto s1 = word(d, 2), s2 = word(d, 2);
    LD u1 = script::u01(s1[0], s1[1]), u2 = script::u01(s2[0], s2[1]);
    static const char* nm[] = {"Uniform", "Logarithm", "PowerLaw"};
    std::string t = mc::fmt("%s(%g,%g,%g) ", nm[l.kind], l.p, l.lo, l.hi) + show(s1);
    c.sample(t);
    c.states(), c.transitions(2);
    script::set(s1);
    double x1 = draw(l);
    bool one = script::drawn == 2;
    script::set(s2);
    double x2 = draw(l);
    LD b = l.kind == 2 && l.p != -1 ? fabsl(l.p + 1) : 1, ln = l.kind == 0 ? 0 : fabsl(logl(std::max(1e-300, l.lo))) + fabsl(logl(l.hi)), E = 2.3e-16L;
    LD tol = l.kind == 0 ? 0 : 8 * E * (ln + 1 + 1 / b) * fabsl(x1);  // log/pow round
    c.check(x1 >= l.lo - tol && x1 <= l.hi + tol, std::string(nm[l.kind]) + " support", t + mc::fmt(" gives %.21g", x1));
    if (one && script::drawn == 2) {
        LD dx = l.kind == 0 ? E * 2 * (fabsl(l.lo) + fabsl(l.hi)) : tol;
        if (u1 < u2) c.check(x1 <= x2, std::string(nm[l.kind]) + " monotone", t + mc::fmt(" gives %.17g, but ", x1) + show(s2) + mc::fmt(" gives %.17g", x2));
        if (l.hi > l.lo && std::isfinite(l.hi - l.lo)) {
            // the value whose distribution function is u (rounding moves the value or the variate)
            LD f = cdf(l, x1), k = powl(std::max<LD>(1e-300L, std::max(l.lo, 0.) / std::max(l.hi, 1e-300)), b), cond = l.kind == 0 ? 1 : 1 + (l.kind == 2 && l.p < -1 ? 1 / std::max(k, 1e-300L) * 0 : 0);
            LD g = std::max(fabsl(cdf(l, x1 + dx) - f), l.kind && x1 - dx <= l.lo ? 0.L : fabsl(cdf(l, x1 - dx) - f));
            c.check(fabsl(f - u1) <= 16 * E * cond + 4 * g, std::string(nm[l.kind]) + " distribution", t + mc::fmt(" gives %.17g: F = %.17Lg, variate %.17Lg", x1, f, u1));
        }
    }
    c.outcome(mc::Hasher()(x1).h);
}
// ---- normal and Maxwellian
static const double NP[][2] = {{0, 1}, {5, 1e-3}, {-1e3, 10}, {0, 1e10}};
static void normals(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto s = word(d, 6);
    auto& p = d.pick(NP);
    std::string t = show(s);
    c.sample(t);
    c.states(), c.transitions(7);
    script::set(s);
    double z = rnd::Normal();
    size_t n0 = script::drawn;
    script::set(s);
    double x = rnd::Normal(p[0], p[1]);
    c.check(std::isfinite(z) && std::isfinite(x), "Normal finite", t);
    if (n0 == script::drawn) c.check(std::fabs((LD)x - (p[0] + (LD)p[1] * z)) <= 1e-15L * (std::fabs(p[0]) + 10 * p[1]), "Normal(mean, sigma)", t + mc::fmt(": Normal(%g,%g)=%.17g, Normal(0,1)=%.17g", p[0], p[1], x, z));
    script::set(s);
    double m1 = rnd::Maxwellian(1);
    n0 = script::drawn;
    script::set(s);
    double m2 = rnd::Maxwellian(p[1]);
    c.check(m1 >= 0 && std::isfinite(m1), "Maxwellian non-negative", t + mc::fmt(": %.17g", m1));
    if (n0 == script::drawn) c.check(std::fabs((LD)m2 - (LD)p[1] * m1) <= 1e-14L * p[1] * m1, "Maxwellian(sigma)", t);
    c.check((float)rnd::Fixed(p[0]) == (float)p[0], "Fixed", t);
    c.outcome(mc::Hasher()(x)(m2).h);
}
static const double TR[][4] = {{-1, 1, 0, 1}, {0, 5, 0, 1}, {2, 2.5, 0, 1}, {-3, -2, 1, 2}, {9.5, 10.5, 10, .1}, {-1e300, 1e300, 0, 1}};
static const double TM[][3] = {{0, 1, 1}, {1, 2, 1}, {2.5, 1e300, 1}, {0, 1e-2, 5e-3}, {100, 300, 100}};
static void truncated(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto s = word(d, 6);
    auto& p = d.pick(TR);
    auto& q = TM[(i / 3) % 5];
    std::string t = show(s);
    c.sample(t);
    c.states(), c.transitions(3);
    script::set(s);
    double x = rnd::TruncatedNormal(p[0], p[1], p[2], p[3]);
    c.check(x >= p[0] && x <= p[1], "TruncatedNormal support", t + mc::fmt(": TruncatedNormal(%g,%g,%g,%g)=%.17g", p[0], p[1], p[2], p[3], x));
    script::set(s);
    double m = rnd::TruncatedMaxwellian(q[0], q[1], q[2]);
    c.check(m >= q[0] && m <= q[1], "TruncatedMaxwellian support", t + mc::fmt(": TruncatedMaxwellian(%g,%g,%g)=%.17g", q[0], q[1], q[2], m));
    script::set(s);
    auto [g, h] = rnd::Normal2(.1);
    c.check(std::isfinite(g) && std::isfinite(h), "Normal2 finite", t);
    c.outcome(mc::Hasher()(x)(m).h);
}
// ---- the laws of the rejection-based generators: exhaustive quadrature over a lattice of uniform variates
static LD Phi(LD x) { return .5L * erfcl(-x / sqrtl(2)); }
static LD Chi3(LD x) { return x <= 0 ? 0 : erfl(x / sqrtl(2)) - sqrtl(2 / PI) * x * expl(-x * x / 2); }
struct Dist { const char* name; int kind; double lo, hi, mean, sig; };  // kind 0 normal 1 truncated 2 Maxwell 3 truncated 4/5 Normal2 7 radius of Normal2 (lo: cut-off)
static const Dist DS[] = {{"Normal(0,1)", 0, 0, 0, 0, 1}, {"Normal(5,2)", 0, 0, 0, 5, 2}, {"Normal()", 6, 0, 0, 0, 1},
    {"TruncatedNormal(-1,.5)", 1, -1, .5, 0, 1}, {"TruncatedNormal(0,4,1,3)", 1, 0, 4, 1, 3}, {"TruncatedNormal(2,9,1,3)", 1, 2, 9, 1, 3},
    {"Maxwellian(1)", 2, 0, 0, 0, 1}, {"Maxwellian(30)", 2, 0, 0, 0, 30}, {"TruncatedMaxwellian(0,1.5,1)", 3, 0, 1.5, 0, 1}, {"TruncatedMaxwellian(1,9,2)", 3, 1, 9, 0, 2},
    {"Normal2(1e-4).first", 4, 0, 0, 0, 1}, {"Normal2(1e-4).second", 5, 0, 0, 0, 1},
    {"Normal2(.05) radius", 7, .05, 0, 0, 1}, {"Normal2(.2) radius", 7, .2, 0, 0, 1}, {"Normal2(.5) radius", 7, .5, 0, 0, 1}, {"Normal2(.9) radius", 7, .9, 0, 0, 1}};
static double gen(Dist const& d) {
    switch (d.kind) {
        case 0: return rnd::Normal(d.mean, d.sig);
        case 1: return d.mean == 0 ? rnd::TruncatedNormal(d.lo, d.hi) : rnd::TruncatedNormal(d.lo, d.hi, d.mean, d.sig);
        case 2: return rnd::Maxwellian(d.sig);
        case 3: return rnd::TruncatedMaxwellian(d.lo, d.hi, d.sig);
        case 4: return rnd::Normal2(1e-4).first;
        case 5: return rnd::Normal2(1e-4).second;
        case 7: { auto [x, y] = rnd::Normal2(d.lo); return std::hypot(x, y); }
    }
    return rnd::Normal();
}
static LD law(Dist const& d, LD x) {
    auto f = [&](LD y) { return d.kind == 2 || d.kind == 3 ? Chi3(y / d.sig) : Phi((y - d.mean) / d.sig); };
    // the pair is cut where its point in the unit disc is closer than lo to the centre: radius < sqrt(-4 ln lo)
    if (d.kind == 7) return std::min(1.L, -expm1l(-x * x / 2) / (1 - (LD)d.lo * d.lo));
    if (d.kind != 1 && d.kind != 3) return f(x);
    return x <= d.lo ? 0 : x >= d.hi ? 1 : (f(x) - f(d.lo)) / (f(d.hi) - f(d.lo));
}
static void laws_of(mc::Case& c, uint64_t i) {
    auto& d = DS[i];
    c.sample(d.name);
    int nv = d.kind == 2 || d.kind == 3 ? 4 : 2, m = nv == 4 ? 22 : 300;
    std::vector<double> x;
    uint64_t N = mc::ipow(m, nv);
    for (uint64_t j = 0; j < N; ++j) {
        std::vector<uint32_t> s;
        uint64_t r = j;
        for (int k = 0; k < nv; ++k, r /= m) s.push_back(0), s.push_back((uint32_t)((2 * (r % m) + 1) * 4294967296ULL / (2 * m)));
        script::set(s);
        double y = gen(d);
        if ((int)script::drawn <= 2 * nv) x.push_back(y);  // accepted at once: has the law
    }
    c.states(), c.transitions(N);
    if (x.size() < N / 50) return;  // the generator consumes its variates in another way
    std::sort(x.begin(), x.end());
    LD ks = 0, m2 = 0, m4 = 0;
    for (size_t k = 0; k < x.size(); ++k) ks = std::max(ks, std::max(fabsl(law(d, x[k]) - (LD)k / x.size()), fabsl(law(d, x[k]) - (k + 1.L) / x.size())));
    c.check(ks <= .03L, mc::fmt("law of %s", std::string(d.name, strcspn(d.name, "(")).c_str()), mc::fmt("%s over %zu accepted lattice points: distribution function off by %.4Lg", d.name, x.size(), ks));
    c.outcome(mc::Hasher()((double)ks).h);
}
// ---- random orbital angles
static void angles(mc::Case& c, uint64_t i) {
    static const double Es[] = {0, .3, .9, .999};
    mc::Dec d(i);
    auto s = word(d, 2);
    double e = d.pick(Es);
    int which = d(4), how = d(2);
    using namespace hub::orbit;
    LD u = script::u01(s[0], s[1]), got = 0, lim = PI + 1e-12L;
    std::string t = mc::fmt("random %s e=%g (%s) ", which == 0 ? "inclination" : which == 1 ? "Omega" : which == 2 ? "omega" : "anomaly", e, how ? "constructor" : "shuffle") + show(s);
    c.sample(t);
    c.states(), c.transitions();
    Kepler k(1., 2., 3., e, .1, .2, .3, .4);
    script::set(s);
    if (how == 0) which == 0 ? k.shuffle_i() : which == 1 ? k.shuffle_Omega() : which == 2 ? k.shuffle_omega() : k.shuffle_nu();
    else if (which == 0) k = Kepler(1., 2., 3., e, isotherm, .2, .3, .4);
    else if (which == 1) k = Elliptic(1., 2., 3. / (1 - e * e), e, .1, isotherm, .3, .4);
    else if (which == 2) k = Kepler(1., 2., 3., e, .1, .2, isotherm, .4);
    else k = Elliptic(1., 2., 3. / (1 - e * e), e, .1, .2, .3, isotherm);
    c.check((which == 0 || k.i == .1) && (which == 1 || k.Omega == .2) && (which == 2 || k.omega == .3) && (which == 3 || k.nu == .4), "other angles changed", t);
    double x = which == 0 ? k.i : which == 1 ? k.Omega : which == 2 ? k.omega : k.nu;
    c.check(which == 0 ? x >= 0 && x <= lim : std::fabs(x) <= lim, "angle range", t + mc::fmt(": %.17g", x));
    if (script::drawn == 2) {
        LD v = 2 * u - 1;  // cos(i), and the other angles over pi
        if (which == 0) got = cosl(x);
        else if (which < 3) got = x / PI;
        else { LD E = 2 * atan2l(sqrtl(1 - (LD)e) * sinl(x / 2.L), sqrtl(1 + (LD)e) * cosl(x / 2.L)); got = (E - e * sinl(E)) / PI; }
        c.check(std::fabs(std::fabs(got) - std::fabs(v)) <= 1e-12L, which == 0 ? "isotropic inclination" : which < 3 ? "uniform angle" : "uniform mean anomaly", t + mc::fmt(": %.17g is %.17Lg of the range, variate %.17Lg", x, got, v));
    }
    c.outcome(mc::Hasher()(x).h);
}
// ---- bounded parameters
static const double DV[] = {0, 1, -1, .5, 2, 1e300, -1e300, 1e-310, -1e-310, 3};
static void param(mc::Case& c, uint64_t i) {
    static const double Bd[][2] = {{-1, 1}, {0, 2}, {.5, .5}, {-1e300, 0}, {1, 3}};
    mc::Dec d(i);
    int mode = d(5);
    auto& b = d.pick(Bd);
    std::vector<double> v;
    for (int j = 0; j < 4; ++j) v.push_back(d.pick(DV));
    int n = 0;
    auto dist = [&](double off) { if (n > 50) throw std::runtime_error("draw() rejects values within the bounds"); double r = n < (int)v.size() ? v[n] : mode == 0 ? 0 : b[0] == .5 ? .5 : std::max(b[0], std::min(b[1], 1.)); ++n; return r + off; };
    rnd::Parameter p(dist, 0.);
    double lo = -INFINITY, hi = INFINITY;
    if (mode == 1 || mode == 3) p.set_min(lo = b[0]);
    if (mode == 2 || mode == 3) p.set_max(hi = b[1]);
    if (mode == 4) p.set_boundary(lo = b[0], hi = b[1]);
    std::string t = mc::fmt("bounds [%g,%g] draws %g %g %g %g", lo, hi, v[0], v[1], v[2], v[3]);
    c.sample(t);
    c.states();
    for (int rep = 0; rep < 2; ++rep) {
        int k = n;
        for (;; ++k) { double w = k < 4 ? v[k] : mode == 0 ? 0 : b[0] == .5 ? .5 : std::max(b[0], std::min(b[1], 1.)); if (w >= lo && w <= hi) break; }
        double want = k < 4 ? v[k] : mode == 0 ? 0 : b[0] == .5 ? .5 : std::max(b[0], std::min(b[1], 1.));
        double got = p.draw();
        c.transitions();
        c.check(got == want && n == k + 1, "Parameter::draw", t + mc::fmt(": draw %d gives %g after %d draws, not %g after %d", rep + 1, got, n, want, k + 1));
        c.outcome(mc::Hasher()(got)(n).h);
        if (!c.failed_.empty()) return;
    }
    // bound arguments and library distributions
    rnd::Parameter q(rnd::Fixed, v[0]);
    c.check(q.draw() == v[0], "Parameter of Fixed", t);
    rnd::Parameter w(rnd::Uniform, -2., -1.);
    double x = w.draw();
    c.check(x >= -2 && x <= -1, "Parameter of Uniform", t + mc::fmt(": %g", x));
    c.transitions(2);
}
// ---- long series of draws outside the bounds
static void patience(mc::Case& c, uint64_t i) {
    static const int N[] = {30, 99, 101, 255, 257, 999, 1001, 1025, 4097, 10001, 65537, 100001};
    mc::Dec d(i);
    int n = d.pick(N);
    uint32_t a = d.pick(W), b = d.pick(W);
    int k = d(6);
    std::string t = mc::fmt("%d times engine outputs 0 %08x 0 %08x, then varying ones", n, a, b);
    c.sample(t);
    c.states(), c.transitions(3);
    std::vector<uint32_t> s;
    for (int j = 0; j < n; ++j) s.insert(s.end(), {0, a, 0, b});
    auto& p = TR[k];
    auto& q = TM[k % 5];
    script::set(s);
    double x = rnd::TruncatedNormal(p[0], p[1], p[2], p[3]);
    c.check(x >= p[0] && x <= p[1], "TruncatedNormal support", t + mc::fmt(": TruncatedNormal(%g,%g,%g,%g)=%.17g", p[0], p[1], p[2], p[3], x));
    script::set(s);
    double m = rnd::TruncatedMaxwellian(q[0], q[1], q[2]);
    c.check(m >= q[0] && m <= q[1], "TruncatedMaxwellian support", t + mc::fmt(": TruncatedMaxwellian(%g,%g,%g)=%.17g", q[0], q[1], q[2], m));
    script::set(s);
    auto [g, h] = rnd::Normal2(.1);
    c.check(std::isfinite(g) && std::isfinite(h), "Normal2 finite", t);
    int cnt = 0;
    rnd::Parameter par([&](double in) { return cnt++ < n ? (cnt % 2 ? in + 2 : in - 2) : in; }, .25);
    if (k % 2) par.set_boundary(0, 1);
    else par.set_min(-1), par.set_max(1);
    double r = par.draw();
    c.check(r == .25 && cnt == n + 1, "Parameter::draw", mc::fmt("%d draws outside the bounds, then .25: %g after %d draws", n, r, cnt));
    c.outcome(mc::Hasher()(x)(m)(g).h);
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    uint64_t w2 = NW * NW, w6 = mc::ipow(NW, 6), L = laws().size();
    s.push_back({"inverse transforms", mc::fmt("%d parameter settings of Uniform, Logarithm and PowerLaw x all pairs of raw engine outputs (8 extreme values each) x another pair to compare with", (int)L), [=](bool) { return L * w2 * w2; }, inverse, 15});
    s.push_back({"normal", "4 parameter settings x all sequences of 6 raw outputs", [=](bool) { return w6 * 4; }, normals, 15});
    s.push_back({"truncated", "6 truncated normal and 5 truncated Maxwellian settings x all sequences of 6 raw outputs", [=](bool) { return w6 * 6; }, truncated, 15});
    s.push_back({"laws", "16 generators x the complete lattice of 300^2 (normal) or 22^4 (Maxwellian) uniform variates, distribution function of the accepted ones", [](bool) { return (uint64_t)(sizeof DS / sizeof *DS); }, laws_of, 1});
    s.push_back({"angles", "all pairs of raw outputs x 4 eccentricities x each random angle through the constructor and through shuffle", [=](bool) { return w2 * 4 * 4 * 2; }, angles, 15});
    s.push_back({"parameter", "all sequences of four draws over 10 values x 5 bounds x none/min/max/both/set_boundary; two successive draws", [](bool) { return (uint64_t)25 * 10000; }, param, 15});
    s.push_back({"long rejections", "30..100001 draws outside the bounds (12 lengths) from each pair of repeated raw outputs x 6 settings: truncated laws, Normal2, bounded parameters", [](bool) { return (uint64_t)12 * 64 * 6; }, patience, 30});
    return mc::main(argc, argv, s);
}
