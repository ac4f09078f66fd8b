// O04: scattering: incident orbits, impact parameters, critical velocities
#include "script_engine.hpp"
#include "mc.hpp"
#include "spaceHub.hpp"
#include <sys/wait.h>
using LD = long double;
namespace ob = hub::orbit;
namespace sc = hub::scattering;
using V = hub::Vec3<double>;
using PS = hub::particles::SizeParticles<hub::Types<double>>::Particle;
using PP = hub::particles::PointParticles<hub::Types<double>>::Particle;
static const LD EPS = hub::math::epsilon_v<double>, PI = 3.14159265358979323846264338327950288L, G = hub::consts::G;
struct V3 { LD x, y, z; };
static V3 operator+(V3 p, V3 q) { return {p.x + q.x, p.y + q.y, p.z + q.z}; }
static V3 operator-(V3 p, V3 q) { return {p.x - q.x, p.y - q.y, p.z - q.z}; }
static V3 operator*(LD s, V3 q) { return {s * q.x, s * q.y, s * q.z}; }
static LD dot(V3 p, V3 q) { return p.x * q.x + p.y * q.y + p.z * q.z; }
static LD len(V3 p) { return sqrtl(dot(p, p)); }
static V3 cr(V3 p, V3 q) { return {p.y * q.z - p.z * q.y, p.z * q.x - p.x * q.z, p.x * q.y - p.y * q.x}; }
static V3 up(V const& v) { return {v.x, v.y, v.z}; }
static V3 rotz(V3 v, LD t) { return {v.x * cosl(t) - v.y * sinl(t), v.x * sinl(t) + v.y * cosl(t), v.z}; }
static V3 rotx(V3 v, LD t) { return {v.x, v.y * cosl(t) - v.z * sinl(t), v.y * sinl(t) + v.z * cosl(t)}; }
static bool rel(LD a, LD b, LD tol) { return fabsl(a - b) <= tol * fabsl(b); }
// checks one hyperbolic orbit against the exact conic with these scattering parameters
static void hyper(mc::Case& c, ob::KeplerOrbit<double> const& o, double m1, double m2, double vi, double b, double r, bool in, std::string t, double i0, double Om0, double om0) {
    LD u = ((LD)m1 + m2) * G, a = u / ((LD)vi * vi), p = (LD)b * b * vi * vi / u, e = sqrtl(1 + (LD)b * b / (a * a)), peri = p / (1 + e);
    t += mc::fmt(": p=%.17g e=%.17g i=%.17g Omega=%.17g omega=%.17g nu=%.17g", o.p, o.e, o.i, o.Omega, o.omega, o.nu);
    c.check(o.m1 == m1 && o.m2 == m2, "masses", t);
    c.check(rel(o.p, p, 16 * EPS), "semi-latus rectum", t + mc::fmt(", p should be %.17Lg", p));
    c.check(rel(o.e, e, 8 * EPS), "eccentricity", t + mc::fmt(", e should be %.17Lg", e));
    c.check(o.orbit_type == ob::OrbitType::Hyperbola, "type", t);
    c.check((std::isnan(i0) || o.i == i0) && (std::isnan(Om0) || o.Omega == Om0) && (std::isnan(om0) || o.omega == om0), "angles", t);
    c.check(std::isnan(i0) ? o.i >= 0 && o.i <= PI + 1e-15L : true, "random inclination", t);
    c.check(std::isfinite(o.nu) && (in ? o.nu <= 0 : o.nu >= 0), "true anomaly", t);
    // the launched state
    LD cn = std::max(-1.L, std::min(1.L, (p / r - 1) / e)), nu = acosl(cn);
    LD dc = 16 * EPS * (p / r + 2) / e, dn = std::min(sqrtl(2 * dc), dc / std::max(1e-30L, sinl(nu)));
    dn = std::min(2 * dn, 2 * sqrtl(2 * dc)) + 4 * EPS;
    LD tr = 32 * EPS + dn + r / p * e * (sinl(nu) + dn) * dn, tv = 32 * EPS + dn;
    c.check(fabsl(o.nu - (in ? -nu : nu)) <= dn + 1e-15L, "true anomaly of the start", t + mc::fmt(", nu should be %.17Lg within %.3Lg", in ? -nu : nu, dn));
    V R, W;
    ob::orbit_to_coord(o, R, W);
    LD q = len(up(R)), w = len(up(W)), wm = sqrtl(u / p) * (1 + e);
    if (tr < .1L) c.check(fabsl(q - r) <= 2 * tr * r, "start distance", t + mc::fmt(": starts at %.17Lg, not %.17g (tolerance %.3Lg)", q, r, 2 * tr));
    if (tr < .1L) {
        c.check(fabsl(.5L * w * w - u / q - .5L * vi * vi) <= 4 * tv * wm * w + 4 * tr * u / r, "energy of the start", t + mc::fmt(": energy %.17Lg, v_inf^2/2=%.17Lg", .5L * w * w - u / q, .5L * vi * vi));
        V3 L = cr(up(R), up(W));
        c.check(fabsl(len(L) - (LD)b * vi) <= 4 * (tr + tv) * r * wm, "impact parameter of the start", t + mc::fmt(": L=%.17Lg, b*v_inf=%.17Lg", len(L), (LD)b * vi));
        LD nn = in ? -nu : nu;
        V3 x{r * cosl(nn), r * sinl(nn), 0}, y{-sqrtl(u / p) * sinl(nn), sqrtl(u / p) * (e + cosl(nn)), 0};
        x = rotz(rotx(rotz(x, o.omega + PI), o.i), o.Omega), y = rotz(rotx(rotz(y, o.omega + PI), o.i), o.Omega);
        c.check(len(x - up(R)) <= 4 * tr * r && len(y - up(W)) <= 4 * tv * wm, "state of the start", t + mc::fmt(": off by %.3Lg of r, %.3Lg of v (tolerance %.3Lg %.3Lg)", len(x - up(R)) / r, len(y - up(W)) / wm, 4 * tr, 4 * tv));
        if (r > peri * (1 + 1e-3L) && dn < .01L) c.check((dot(up(R), up(W)) < 0) == in, in ? "not incoming" : "not outgoing", t);
    }
    c.outcome(mc::Hasher()(o.nu)(R.x)(W.y).h);
}
static const double Ms[][2] = {{1, 1}, {1, 1e-6}, {1e-3, 30}, {4e6, 1}}, Vs[] = {1e-3, 1, 40, 2e3}, Bs[] = {1e-4, .01, .3, 1, 3, 100, 1e5}, Rs[] = {1e-14, 3e-14, 1e-12, 1e-7, .01, .5, 1, 10, 1e3, 1e6}, As[] = {0, .5, 1.5707963267948966, 3, -2};
static void hyperbolic(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto& m = d.pick(Ms);
    double vi = d.pick(Vs), be = d.pick(Bs), k = d.pick(Rs);
    bool in = d(2), def = false;
    int rnd = d(3);
    double inc = d.pick(As), Om = d.pick(As), om = As[d(3)];
    LD u = ((LD)m[0] + m[1]) * G, a = u / ((LD)vi * vi);
    double b = (double)(be * a), r;
    LD peri = (LD)b * b / a / (1 + sqrtl(1 + (LD)b * b / (a * a)));
    r = (double)(peri * (1 + k));
    std::string t = mc::fmt("Hyperbolic(m %g %g, v_inf %g, b %.17g, angles %g %g %g, r %.17g, %s)", m[0], m[1], vi, b, inc, Om, om, r, in ? "in" : "out");
    c.sample(t);
    c.states(), c.transitions();
    double N = NAN;
    script::set({1, 0x60000000, 2, 0x90000000, 3, 0x20000000});
    if (rnd == 0 && in && Om == 0) def = true;
    auto io = in ? ob::Hyper::in : ob::Hyper::out;
    if (rnd == 0) { ob::Hyperbolic o = def ? ob::Hyperbolic(m[0], m[1], vi, b, inc, Om, om, r) : ob::Hyperbolic(m[0], m[1], vi, b, inc, Om, om, r, io); c.check(o.b == b, "b", t); hyper(c, o, m[0], m[1], vi, b, r, in, t, inc, Om, om); }
    else if (rnd == 1) { ob::Hyperbolic o(m[0], m[1], vi, b, ob::isotherm, Om, om, r, io); c.check(o.b == b, "b", t); hyper(c, o, m[0], m[1], vi, b, r, in, t, N, Om, om); }
    else { ob::Hyperbolic o(m[0], m[1], vi, b, inc, ob::isotherm, ob::isotherm, r, io); c.check(o.b == b, "b", t); hyper(c, o, m[0], m[1], vi, b, r, in, t, inc, N, N); }
}
// impossible requests end the program instead of returning an orbit
static void rejected(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto& m = d.pick(Ms);
    double vi = d.pick(Vs), be = d.pick(Bs);
    int how = d(2);
    if (be < .01) return;
    double u = (m[0] + m[1]) * (double)G, a = u / (vi * vi), b = how ? 0 : be * a, r = how ? 10 * a : .999 * a * (sqrt(1 + be * be) - 1);
    std::string t = mc::fmt("Hyperbolic(m %g %g, v_inf %g, b %g, r %g)", m[0], m[1], vi, b, r);
    c.states(), c.transitions();
    pid_t pid = fork();
    if (!pid) {
        if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(9);
        alarm(20);
        try { ob::Hyperbolic o(m[0], m[1], vi, b, .1, .2, .3, r, ob::Hyper::in); } catch (...) { _exit(8); }
        _exit(7);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 7), how ? "zero impact parameter accepted" : "start inside the periapsis accepted", t);
    c.outcome(mc::Hasher()(st).h);
}
// ---- clusters
template <typename P> static P mk(double m, double R, V p, V v) {
    if constexpr (std::is_same_v<P, PS>) return P{m, R, p.x, p.y, p.z, v.x, v.y, v.z};
    else return P{m, p.x, p.y, p.z, v.x, v.y, v.z};
}
struct Agg { LD M = 0, E = 0, Ea = 0, size = 0; };
template <typename P> static std::vector<P> cluster(int kind, double s) {
    std::vector<P> v;
    static const int N[] = {1, 2, 2, 3};
    static const double X[4][3][7] = {{{1, .5, .5, 2, 3, 1, -1}}, {{1, .01, 0, 0, 0, 0, 0}, {.5, .02, 2, 0, .5, .3, .4}}, {{20, .1, -1, 1, 0, 0, .7}, {30, .1, 1, .5, .1, .1, -1}}, {{1, .01, 0, 0, 0, 0, 0}, {2, .02, 1, .2, 0, .3, .9}, {3, 0, 0, 7, 0, .5, 0}}};
    for (int i = 0; i < N[kind]; ++i) { auto* x = X[kind][i]; v.push_back(mk<P>(x[0] * s, x[1], V{x[2], x[3], x[4]}, V{x[5], x[6], -.2 * i})); }
    return v;
}
template <typename P> static Agg agg(std::vector<P> const& v) {
    Agg r;
    LD kk = 0;
    V3 mom{0, 0, 0};
    for (auto& p : v) r.M += p.mass, mom = mom + (LD)p.mass * up(p.vel), kk += .5L * p.mass * dot(up(p.vel), up(p.vel));
    LD pot = 0;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j) { LD q = len(up(v[i].pos) - up(v[j].pos)); pot -= G * (LD)v[i].mass * v[j].mass / q; r.size = std::max(r.size, q); }
    if constexpr (std::is_same_v<P, PS>) if (v.size() == 1) r.size = v[0].radius;
    r.E = kk + pot - .5L * dot(mom, mom) / r.M, r.Ea = kk + fabsl(pot);
    return r;
}
template <typename P, typename F> static void as(std::vector<P> const& v, int form, F f) {
    if (form == 0 && v.size() == 1) f(v[0]);
    else if (form == 0 && v.size() == 2) f(std::array<P, 2>{v[0], v[1]});
    else f(v);
}
static LD tidal(LD f, LD ma, LD mb, LD Ra, LD Rb) { return std::max(cbrtl(ma / (f * mb)) * Rb, cbrtl(mb / (f * ma)) * Ra); }
static LD bmax(LD u, LD v, LD rp) { return sqrtl(rp * rp + 2 * u * rp / (v * v)); }
static const double Fs[] = {.02, 1e-4, 1}, RPs[] = {1e-3, 1, 1e4}, Ss[] = {1, 1e-3};
template <typename P> static void sections(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto v1 = cluster<P>(d(4), 1), v2 = cluster<P>(d(4), d.pick(Ss));
    double vi = d.pick(Vs), f = d.pick(Fs), rp = d.pick(RPs);
    int fm = d(2);
    Agg g1 = agg(v1), g2 = agg(v2);
    LD M = g1.M + g2.M, E = 16 * EPS, u = M * G, mu = g1.M * g2.M / M;
    double m1 = g1.M, m2 = g2.M, R1 = g1.size, R2 = g2.size;
    std::string t = mc::fmt("clusters of %zu and %zu particles, masses %g %g, v_inf %g, factor %g, rp %g", v1.size(), v2.size(), m1, m2, vi, f, rp);
    c.sample(t);
    c.states(), c.transitions(6);
    // an orbit with impact parameter b_max has its periapsis at rp_max
    double b = sc::b_max(m1 + m2, vi, rp);
    c.check(rel(b, bmax(u, vi, rp), E), "b_max", t + mc::fmt(": %.17g", b));
    LD p = (LD)b * b * vi * vi / u, e = sqrtl(1 + p * vi * vi / u);
    c.check(rel(p / (1 + e), rp, 2 * E), "b_max periapsis", t);
    LD want = bmax(u, vi, tidal(f, m1, m2, R1, R2));
    bool points = R1 == 0 && R2 == 0;  // two points have no tidal radius: nothing is promised
    c.check(points || rel(sc::b_max(m1, m2, R1, R2, vi, f), want, 4 * E), "b_max of masses and sizes", t);
    c.check(rel(sc::hard_radius(m1, m2, rp, vi), G * m1 * m2 / ((LD)rp * vi * vi), E), "hard_radius", t);
    as(v1, fm, [&](auto const& q1) { as(v2, fm, [&](auto const& q2) {
        double bb = sc::b_max(q1, q2, vi, f);
        c.check(points || rel(bb, want, 4 * E), "b_max of clusters", t + mc::fmt(": %.17g, not %.17Lg", bb, want));
        LD Es = g1.E + g2.E, dE = E * (g1.Ea + g2.Ea);
        if (Es < -4 * dE) {
            double vc = sc::critical_vel(q1, q2);
            // at this velocity at infinity the total energy vanishes
            c.check(fabsl(.5L * mu * vc * vc + Es) <= 2 * dE - E * Es, "critical_vel of clusters", t + mc::fmt(": %.17g leaves energy %.3Lg of %.3Lg", vc, .5L * mu * vc * vc + Es, Es));
            double w = sc::critical_vel(m1, m2, (double)g1.E, (double)g2.E);
            c.check(fabsl(.5L * mu * w * w + Es) <= E * (fabsl(g1.E) + fabsl(g2.E)), "critical_vel", t);
        }
        c.outcome(mc::Hasher()(bb)(b).h);
    }); });
}
// ---- the incident orbits under every scripted draw
static const uint32_t Ws[] = {0, 1, 0x200, 0x40000000, 0x7fffffff, 0x80000000, 0xc0000001, 0xfffff7ff, 0xffffffff};
static void incident(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    std::vector<uint32_t> s;
    for (int k = 0; k < 4; ++k) s.push_back(d.pick(Ws));
    LD u1 = script::u01(s[0], s[1]), u2 = script::u01(s[2], s[3]);
    if (u1 == 0) return;  // a head-on collision has no such orbit
    auto& m = d.pick(Ms);
    double vi = d.pick(Vs), be = d.pick(Bs), k = d.pick(Rs);
    if (be == 1e-4 || k < 1e-7) return;
    LD u = ((LD)m[0] + m[1]) * G, a = u / ((LD)vi * vi);
    double bm = (double)(be * a);
    LD peri = (LD)bm * bm / a / (1 + sqrtl(1 + (LD)bm * bm / (a * a)));
    double r = (double)(peri * (1 + k));
    if (sqrtl(u1) * be < 1e-4L) return;  // e is 1 within rounding
    std::string t = mc::fmt("incident_orbit(m %g %g, v_inf %g, b_max %g, r %g), engine %08x %08x %08x %08x", m[0], m[1], vi, bm, r, s[0], s[1], s[2], s[3]);
    c.sample(t);
    c.states(), c.transitions();
    script::set(s);
    auto o = sc::incident_orbit(m[0], m[1], vi, bm, r);
    LD tb = 8 * EPS;
    c.check(o.b <= bm * (1 + tb), "impact parameter above b_max", t + mc::fmt(": %.17g", o.b));
    if (script::drawn == 4 && sqrtl(u1) > 1e-6L) c.check(fabsl((LD)o.b * o.b / ((LD)bm * bm) - u1) <= tb || fabsl((LD)o.b * o.b / ((LD)bm * bm) - u2) <= tb, "impact parameter not uniform in the area", t + mc::fmt(": b/b_max=%.17Lg, variates %.17Lg %.17Lg", (LD)o.b / bm, u1, u2));
    c.check(o.i >= 0 && o.i <= 2 * PI + 1e-15L, "orientation range", t);
    if (script::drawn == 4) c.check(fabsl(o.i / (2 * PI) - u2) <= tb || fabsl(o.i / (2 * PI) - u1) <= tb, "orientation not uniform", t + mc::fmt(": i=%.17g", o.i));
    if (!(o.b > 0)) { c.check(false, "b is not positive", t); return; }
    hyper(c, o, m[0], m[1], vi, o.b, r, true, t, o.i, 0, 0);
}
template <typename P> static void incident2(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    std::vector<uint32_t> s;
    for (int k = 0; k < 4; ++k) s.push_back(d.pick(Ws));
    LD u1 = script::u01(s[0], s[1]), u2 = script::u01(s[2], s[3]);
    auto v1 = cluster<P>(d(4), 1), v2 = cluster<P>(d(4), d.pick(Ss));
    double vi = d.pick(Vs), f = Fs[1] * (1 + 9 * d(2));
    int fm = d(2);
    Agg g1 = agg(v1), g2 = agg(v2);
    LD u = (g1.M + g2.M) * G, a = u / ((LD)vi * vi), bm = bmax(u, vi, tidal(.02L, g1.M, g2.M, g1.size, g2.size)), r = tidal(f, g1.M, g2.M, g1.size, g2.size);
    if (!(g1.size + g2.size > 0) || !(sqrtl(u1) * bm / a > 1e-4L)) return;
    std::string t = mc::fmt("incident_orbit(clusters of %zu and %zu particles, masses %Lg %Lg, v_inf %g, factor %g), engine %08x %08x %08x %08x", v1.size(), v2.size(), g1.M, g2.M, vi, f, s[0], s[1], s[2], s[3]);
    c.sample(t);
    c.states(), c.transitions();
    script::set(s);
    as(v1, fm, [&](auto const& q1) { as(v2, fm, [&](auto const& q2) {
        auto o = sc::incident_orbit(q1, q2, vi, f);
        c.check(rel(o.m1, g1.M, 16 * EPS) && rel(o.m2, g2.M, 16 * EPS), "masses of the clusters", t);
        c.check(o.b <= bm * (1 + 64 * EPS), "impact parameter above b_max", t + mc::fmt(": %.17g, b_max %.17Lg", o.b, bm));
        if (script::drawn == 4) c.check(fabsl((LD)o.b * o.b / (bm * bm) - u1) <= 64 * EPS || fabsl((LD)o.b * o.b / (bm * bm) - u2) <= 64 * EPS, "impact parameter not uniform in the area", t + mc::fmt(": b/b_max=%.17Lg, variates %.17Lg %.17Lg", (LD)o.b / bm, u1, u2));
        if (!(o.b > 0)) { c.check(false, "b is not positive", t); return; }
        hyper(c, o, o.m1, o.m2, vi, o.b, (double)r, true, t, o.i, 0, 0);
    }); });
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    auto cnt = [](uint64_t n) { return [n](bool) { return n; }; };
    s.push_back({"hyperbolic", "4 mass pairs x 4 velocities x 7 impact parameters (1e-4..1e5 of a) x 10 start distances (periapsis..1e6 periapsis) x in/out x 3 kinds of angles x 5x5x3 angles", cnt(4 * 4 * 7 * 10 * 2 * 3 * 75), hyperbolic, 15});
    s.push_back({"rejected", "start inside the periapsis, zero impact parameter", cnt(4 * 4 * 7 * 2), rejected, 30});
    s.push_back({"cross sections, sized particles", "4x4 clusters x 2 mass scales x 4 velocities x 3 tidal factors x 3 periapsides x 2 container kinds", cnt(4 * 4 * 2 * 4 * 3 * 3 * 2), sections<PS>, 15});
    s.push_back({"cross sections, point particles", "4x4 clusters x 2 mass scales x 4 velocities x 3 tidal factors x 3 periapsides x 2 container kinds", cnt(4 * 4 * 2 * 4 * 3 * 3 * 2), sections<PP>, 15});
    uint64_t w4 = 9 * 9 * 9 * 9;
    s.push_back({"incident orbits", "all sequences of 4 raw engine outputs over 9 values x 4 mass pairs x 4 velocities x 7 maximal impact parameters x 10 distances", cnt(w4 * 4 * 4 * 7 * 10), incident, 15});
    s.push_back({"incident orbits of sized clusters", "all sequences of 4 raw engine outputs over 9 values x 4x4 clusters x 2 scales x 4 velocities x 2 factors x 2 container kinds", cnt(w4 * 16 * 2 * 4 * 2 * 2), incident2<PS>, 15});
    s.push_back({"incident orbits of point clusters", "all sequences of 4 raw engine outputs over 9 values x 4x4 clusters x 2 scales x 4 velocities x 2 factors x 2 container kinds", cnt(w4 * 16 * 2 * 4 * 2 * 2), incident2<PP>, 15});
    return mc::main(argc, argv, s);
}
