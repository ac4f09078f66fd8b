// O02: anomalies and the time to periapsis
#include "mc.hpp"
#include "spaceHub.hpp"
using LD = long double;
namespace ob = hub::orbit;
static const LD PI = 3.14159265358979323846264338327950288L;
static const double ecc[] = {0, 1e-9, 3e-6, 4e-5, 1e-3, .1, .5, .9, .99, .9999, 1 - 1e-6, 1 - 1e-10, 1, 1 + 1e-10, 1 + 1e-6, 1.001, 1.1, 1.5, 3, 20, 1e3};
static std::vector<double> const& grid() {  // of |E| (elliptic), |H| (hyperbolic), |D| = |tan(T/2)| (parabolic)
    static const std::vector<double> g = [] {
        std::vector<double> v{0, 1e-14, 1e-9, 1e-6, 1e-4, 3.1415926, 3.141592653589793};
        for (int i = 1; i < 40; ++i) v.push_back(i * .08);
        for (int i = 0; i < 20; ++i) v.push_back(3.3 + i * .5);
        std::sort(v.begin(), v.end());
        std::vector<double> w;
        for (auto it = v.rbegin(); it != v.rend(); ++it) w.push_back(-*it);
        for (double x : v) w.push_back(x);
        return w;
    }();
    return g;
}
struct Ref {  // the three anomalies of one phase, and the derivatives of T and M with respect to E
    LD e, E, T, M, dT, dM, canc;
    Ref(LD e, LD E) : e(e), E(E) {
        if (e < 1) T = 2 * atan2l(sqrtl(1 + e) * sinl(E / 2), sqrtl(1 - e) * cosl(E / 2)), M = E - e * sinl(E), dM = 1 - e * cosl(E), dT = sqrtl(1 - e * e) / dM, canc = fabsl(E) + fabsl(e * sinl(E));
        else if (e > 1) T = 2 * atan2l(sqrtl(e + 1) * sinhl(E / 2), sqrtl(e - 1) * coshl(E / 2)), M = e * sinhl(E) - E, dM = e * coshl(E) - 1, dT = sqrtl(e * e - 1) / dM, canc = fabsl(E) + fabsl(e * sinhl(E));
        else T = 2 * atanl(E), M = E + E * E * E / 3, dM = 1 + E * E, dT = 2 / (1 + E * E), canc = fabsl(M);
    }
    LD tolE() const { return 16 * hub::math::epsilon_v<double> * (fabsl(E) + (canc + 1) / dM + fabsl(T) / dT); }
    LD val(int k) const { return k == 0 ? E : k == 1 ? T : M; }
    LD tol(int k) const { LD s = k == 0 ? 1 : k == 1 ? dT : dM; return tolE() * s + 16 * hub::math::epsilon_v<double> * fabsl(val(k)) + 1e-300L; }
};
static double conv(int from, int to, double x, double e) {
    if (from == 0) return to == 1 ? ob::E_anomaly_to_T_anomaly(x, e) : ob::E_anomaly_to_M_anomaly(x, e);
    if (from == 1) return to == 0 ? ob::T_anomaly_to_E_anomaly(x, e) : ob::T_anomaly_to_M_anomaly(x, e);
    return to == 0 ? ob::M_anomaly_to_E_anomaly(x, e) : ob::M_anomaly_to_T_anomaly(x, e);
}
static const char* nm[] = {"E", "T", "M"};
// at the apoapsis of an ellipse pi and -pi are the same phase, and rounding decides which of them a conversion returns
static double wrap(double e, double x, LD ref) {
    const LD top = PI - 5e-15L;
    return e < 1 && fabsl(ref) > top && std::fabs(x) > top && (x > 0) != (ref > 0) ? -x : x;
}
static bool usable(double e, double E) {
    if (e < 1) return std::fabs(E) <= 3.141592653589793;
    if (e > 1) return Ref(e, E).tolE() < 1e-3L;
    return true;
}
// all chains of up to three conversions from each anomaly
static void chains(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    double e = d.pick(ecc), E = d.pick(grid());
    if (!usable(e, E)) return;
    int k0 = d(3);
    Ref r(e, E);
    std::string t = mc::fmt("e=%.17g E=%.9g", e, E);
    c.sample(t);
    c.states();
    for (int ch = 0; ch < 14; ++ch) {
        int len = ch < 2 ? 1 : ch < 6 ? 2 : 3, bits = ch < 2 ? ch : ch < 6 ? ch - 2 : ch - 6, k = k0;
        double x = (double)r.val(k0);
        std::string p = nm[k0];
        for (int j = 0; j < len; ++j) {
            int to = (k + 1 + ((bits >> j) & 1)) % 3;
            x = wrap(e, conv(k, to, x, e), r.val(to));
            k = to;
            p += std::string("->") + nm[to];
            c.transitions();
        }
        // the starting value is rounded to a double and every conversion adds its own error
        c.check(std::fabs((LD)x - r.val(k)) <= len * r.tol(k) + r.tol(k), p, t + mc::fmt(": %s gives %.17g instead of %.17Lg (tolerance %.3Lg)", p.c_str(), x, r.val(k), r.tol(k)));
        if (len == 1 && std::fabs((double)r.val(k0)) > 1e-12) c.check((x > 0) == (E > 0) || E == 0 || std::fabs(x) < 1e-300, p + " sign", t + mc::fmt(": %s gives %.17g", p.c_str(), x));
        c.outcome(mc::Hasher()(x).h);
    }
}
// each conversion is monotone between neighbouring phases and satisfies Kepler's equation
static void mono(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    double e = d.pick(ecc);
    uint64_t j = d(grid().size() - 1);
    int from = d(3), to = (from + 1 + d(2)) % 3;
    double E1 = grid()[j], E2 = grid()[j + 1];
    if (E1 == E2 || !usable(e, E1) || !usable(e, E2)) return;
    Ref r1(e, E1), r2(e, E2);
    double x1 = (double)r1.val(from), x2 = (double)r2.val(from);
    double y1 = wrap(e, conv(from, to, x1, e), r1.val(to)), y2 = wrap(e, conv(from, to, x2, e), r2.val(to));
    std::string t = mc::fmt("%s->%s e=%.17g between %.17g and %.17g", nm[from], nm[to], e, x1, x2);
    c.sample(t);
    c.states(), c.transitions(2);
    if (r2.val(to) - r1.val(to) > r1.tol(to) + r2.tol(to)) c.check(y1 < y2, "monotone", t + mc::fmt(": %.17g, %.17g", y1, y2));
    else c.check(y1 <= y2 + (double)(r1.tol(to) + r2.tol(to)), "monotone", t + mc::fmt(": %.17g, %.17g", y1, y2));
    c.outcome(mc::Hasher()(y1)(y2).h);
}
// mean anomalies far from the phases above: large |M| on open orbits, [-pi, pi] on ellipses
static void kepler(mc::Case& c, uint64_t i) {
    static const double Ms[] = {0, 1e-17, 1e-15, 1e-10, 1e-5, .1, .5, 1, 2, 3, 3.1, 3.14159, 3.141592653589793, 5, 20, 1e3, 1e6, 1e9};
    mc::Dec d(i);
    double e = d.pick(ecc), M = d.pick(Ms);
    if (d(2)) M = -M;
    if (e < 1 && std::fabs(M) > 3.141592653589793) return;
    double E = wrap(e, ob::M_anomaly_to_E_anomaly(M, e), M);
    Ref r(e, E);
    std::string t = mc::fmt("e=%.17g M=%.17g gives E=%.17g, which has M=%.17Lg", e, M, E, r.M);
    c.sample(t);
    c.states(), c.transitions(2);
    c.check(fabsl(r.M - M) <= 8 * hub::math::epsilon_v<double> * (r.canc + fabsl(r.E * r.dM) + std::fabs(M) + .25), "Kepler's equation", t);
    if (e == 1 || e > 1.05 || e < 1) {
        LD T = wrap(e, ob::M_anomaly_to_T_anomaly(M, e), r.T);
        c.check(fabsl(T - r.T) <= 1e-13L, "M->T", t + mc::fmt(", T=%.17Lg instead of %.17Lg", T, r.T));
    }
    c.outcome(mc::Hasher()(E).h);
}
static const double massp[][2] = {{1, .5}, {1e-3, 1e3}, {1, 0}};
static const double sizep[] = {1, 1e-6, 3e5};
// time to periapsis of an orbit: mean anomaly over mean motion; before periapsis negative on ellipses, positive on open orbits
static void time_orbit(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    double e = d.pick(ecc), E = d.pick(grid());
    auto& m = d.pick(massp);
    double p = d.pick(sizep);
    if (!usable(e, E)) return;
    Ref r(e, E);
    LD u = ((LD)m[0] + m[1]) * hub::consts::G, a = e == 1 ? 0 : p / (1 - (LD)e * e);
    double nu = (double)r.T;
    ob::Kepler o(m[0], m[1], p, e, .3, .4, .5, nu);
    LD n = e == 1 ? 2 * sqrtl(u / p / p / p) : sqrtl(u / fabsl(a * a * a)), ref = (e < 1 ? 1 : -1) * r.M / n;
    LD ea = 16 * hub::math::epsilon_v<double> / (e == 1 ? 1 : fabsl(1 - (LD)e));  // 1-e^2 is computed from the square
    double t1 = wrap(e, ob::time_to_periapsis(o) * n, r.M) / n, aa = e == 1 ? p : (double)a, t2 = ob::time_to_periapsis(o.orbit_type, (double)u, aa, (double)r.M);
    std::string t = mc::fmt("m=%g,%g p=%g e=%.17g nu=%.17g", m[0], m[1], p, e, nu);
    c.sample(t);
    c.states(), c.transitions(2);
    c.check(std::fabs(t1 - ref) <= 2 * r.tol(2) / n + ea * fabsl(ref), "time_to_periapsis(orbit)", t + mc::fmt(": %.17g instead of %.17Lg", t1, ref));
    c.check(std::fabs(t2 - r.M / n) <= 32 * hub::math::epsilon_v<double> * fabsl(ref), "time_to_periapsis(type, u, a, M)", t + mc::fmt(": %.17g instead of %.17Lg", t2, r.M / n));
    c.outcome(mc::Hasher()(t1).h);
}
using PT = hub::particles::SizeParticles<hub::Types<double>>::Particle;
static void pair(mc::Case& c, PT const& p1, PT const& p2, std::string const& t) {
    LD u = ((LD)p1.mass + p2.mass) * hub::consts::G, R[3] = {(LD)p1.pos.x - p2.pos.x, (LD)p1.pos.y - p2.pos.y, (LD)p1.pos.z - p2.pos.z}, V[3] = {(LD)p1.vel.x - p2.vel.x, (LD)p1.vel.y - p2.vel.y, (LD)p1.vel.z - p2.vel.z};
    auto dt = [](LD* x, LD* y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
    LD r = sqrtl(dt(R, R)), v2 = dt(V, V), rv = dt(R, V), L2 = dt(R, R) * v2 - rv * rv, al = 2 / r - v2 / u;  // al = 1/a
    LD s = sqrtl(std::max<LD>(L2, 0) / (r * r * v2)), E = hub::math::epsilon_v<double>, k = r * v2 / u;
    if (!(s > 1e-5L)) return;
    LD p = L2 / u, e = sqrtl(std::max<LD>(0, 1 - p * al)), errE = 64 * E * (k + 1) / s;
    double got = ob::time_to_periapsis(p1, p2);
    c.states(), c.transitions();
    c.outcome(mc::Hasher()(got).h);
    std::string g = t + mc::fmt(": %.17g", got);
    if (e < 1e-6L) {  // the periapsis is not determined
        LD P = 2 * PI * sqrtl(1 / (al * al * al * u));
        c.check(got >= 0 && got <= P / 2 * (1 + 1e-9L), "time_to_periapsis(pair) on a circle", g);
        return;
    }
    LD ref, a = 1 / al, cn = (p / r - 1) / e, dc = (errE + 32 * E / s * (1 + p / r)) / e, sn = sqrtl(std::max<LD>(0, 1 - cn * cn)), dn = std::min(sqrtl(2 * dc), dc / std::max(sn, 1e-30L)), dMdn, rel, n, canc = 0;
    bool par = fabsl(r * al) < 1e-14L;
    if (par) {
        if (al != 0) return;
        LD D = fabsl(rv) / sqrtl(u * p);
        e = 1, n = 2 * sqrtl(u / (p * p * p)), ref = (D + D * D * D / 3) / n, dMdn = (1 + D * D) * (1 + D * D) / 2, rel = 64 * E / s;
        if (got == 0 && D > .1L) { c.fail("time_to_periapsis(pair) parabola", g); return; }
        // rounding may turn the orbit into an ellipse or hyperbola next to the parabola
        hub::Vec3<double> dr = p1.pos - p2.pos, dv = p1.vel - p2.vel;
        if (ob::calc_eccentricity((double)u, dr, dv) != 1) return;
    } else if (al > 0) {
        LD es = fabsl(rv) / sqrtl(u * a), ec = 1 - r / a, Ea = atan2l(es, ec);
        n = sqrtl(u / (a * a * a)), ref = (Ea - es) / n, canc = Ea + es;
        LD q = 1 - e * e;
        dMdn = q * sqrtl(q) / ((1 + e * cn) * (1 + e * cn));
        rel = 64 * E * (1 + k) / fabsl(r * al) + errE / (1 - e);
    } else {
        LD es = fabsl(rv) / sqrtl(u * -a), H = asinhl(es / e);
        n = sqrtl(u / (-a * a * a)), ref = (es - H) / n, canc = es + H;
        LD q = e * e - 1;
        dMdn = q * sqrtl(q) / ((1 + e * cn) * (1 + e * cn));
        rel = 64 * E * (1 + k) / fabsl(r * al) + errE / (e - 1);
    }
    LD cap = al > 0 ? PI : 1e300L, tol = (std::min(4 * dMdn * dn, cap) + 32 * E * canc) / n + 8 * rel * (ref + (canc + dMdn * (1 + fabsl(cn))) / n);
    if (!(tol < .05L * ref) && !(tol * n < 1e-3L)) return;
    c.check(std::fabs((LD)got - ref) <= tol, "time_to_periapsis(pair)", g + mc::fmt(" instead of %.17Lg (e=%.17Lg, tolerance %.3Lg)", ref, e, tol));
    std::array<PT, 1> one{p1};
    std::array<PT, 2> two{p2, p2};
    two[0].mass = p2.mass * .25, two[1].mass = p2.mass * .75;
    two[0].pos += (double)(3 * r) * hub::Vec3<double>{3, 6, -3}, two[1].pos -= (double)r * hub::Vec3<double>{3, 6, -3};
    double sc = (double)(std::sqrt(std::fabs((double)p2.pos.x) + std::fabs((double)p2.pos.y) + std::fabs((double)p2.pos.z)) + 20 * r) / (double)r;
    if (!(p2.mass > 0)) return;
    double ct = ob::time_to_periapsis(one, two);
    c.check(std::fabs(ct - got) <= 64 * sc * tol + 1e-9 * std::fabs(got), "time_to_periapsis(clusters)", g + mc::fmt(" but %.17g for the same pair given as clusters", ct));
}
static void time_pair(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    double e = d.pick(ecc), E = d.pick(grid());
    auto& m = d.pick(massp);
    double p = d.pick(sizep);
    int or_ = d(3);
    if (!usable(e, E)) return;
    Ref r(e, E);
    ob::Kepler o(m[0], m[1], p, e, or_ == 0 ? 0 : 1.1 * or_, .4 * or_, .5 - or_, (double)r.T);
    std::string t = mc::fmt("m=%g,%g p=%g e=%.17g nu=%.17g orientation %d", m[0], m[1], p, e, o.nu, or_);
    c.sample(t);
    PT p1{m[0], 0, 0, 0, 0, 0, 0, 0}, p2{m[1], 0, 0, 0, 0, 0, 0, 0};
    ob::move_particles(o, p1);
    double vs = std::sqrt((m[0] + m[1]) / p);
    hub::Vec3<double> dp = p * hub::Vec3<double>{.5, -.25, 1}, dv = vs * hub::Vec3<double>{-.5, 1, .25};
    p1.pos += dp, p2.pos += dp, p1.vel += dv, p2.vel += dv;
    pair(c, p1, p2, t);
}
static void time_grid(mc::Case& c, uint64_t idx) {
    static const double X[] = {-2, -1, 0, 1, .5}, W[] = {-2, -.5, 0, .5, 1};
    mc::Dec d(idx);
    double x[6];
    for (int j = 0; j < 6; ++j) x[j] = j < 3 ? d.pick(X) : d.pick(W);
    if ((!x[0] && !x[1] && !x[2]) || (!x[3] && !x[4] && !x[5])) return;
    std::string t = mc::fmt("m=.5,.5 dr=(%g,%g,%g) dv=(%g,%g,%g)", x[0], x[1], x[2], x[3], x[4], x[5]);
    c.sample(t);
    PT p1{.5, 0, x[0], x[1], x[2], x[3], x[4], x[5]}, p2{.5, 0, .5, -1, 2, -.5, 1, .25};
    p1.pos += p2.pos, p1.vel += p2.vel;
    pair(c, p1, p2, t);
}
int main(int argc, char** argv) {
    uint64_t g = grid().size(), e = std::size(ecc);
    std::vector<mc::Suite> s;
    std::string al = mc::fmt("%d eccentricities (0 .. 1000, four within 1e-6 of 1) x %d phases", (int)e, (int)g);
    s.push_back({"chains", al + " x all chains of up to three conversions between eccentric, true and mean anomaly", [=](bool) { return e * g * 3; }, chains, 15});
    s.push_back({"monotone", al + " (neighbouring pairs) x the six conversions", [=](bool) { return e * (g - 1) * 6; }, mono, 15});
    s.push_back({"Kepler's equation", mc::fmt("%d eccentricities x 18 mean anomalies (to 1e9 on open orbits) x 2 signs", (int)e), [=](bool) { return e * 18 * 2; }, kepler, 15});
    s.push_back({"time from elements", al + " x 3 mass pairs x 3 sizes", [=](bool) { return e * g * 9; }, time_orbit, 15});
    s.push_back({"time from two particles", al + " x 3 mass pairs x 3 sizes x 3 orientations; single particles and clusters", [=](bool) { return e * g * 27; }, time_pair, 15});
    s.push_back({"time from exact states", "relative positions in {-2,-1,0,.5,1}^3, velocities in {-2,-.5,0,.5,1}^3", [](bool) { return (uint64_t)15625; }, time_grid, 15});
    return mc::main(argc, argv, s);
}
