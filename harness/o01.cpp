// O01: orbital elements <-> coordinates
#include "mc.hpp"
#include "spaceHub.hpp"
using LD = long double;
namespace ob = hub::orbit;
static const LD PI = 3.14159265358979323846264338327950288L;
struct V3 { LD x, y, z; };
static V3 operator+(V3 p, V3 q) { return {p.x + q.x, p.y + q.y, p.z + q.z}; }
static V3 operator-(V3 p, V3 q) { return {p.x - q.x, p.y - q.y, p.z - q.z}; }
static V3 operator*(LD s, V3 q) { return {s * q.x, s * q.y, s * q.z}; }
static LD dot(V3 p, V3 q) { return p.x * q.x + p.y * q.y + p.z * q.z; }
static LD len(V3 p) { return sqrtl(dot(p, p)); }
static V3 cr(V3 p, V3 q) { return {p.y * q.z - p.z * q.y, p.z * q.x - p.x * q.z, p.x * q.y - p.y * q.x}; }
template <typename T> static V3 up(hub::Vec3<T> const& v) { return {(LD)v.x, (LD)v.y, (LD)v.z}; }
template <typename T> static hub::Vec3<T> down(V3 v) { return {(T)v.x, (T)v.y, (T)v.z}; }
template <typename T> static const char* tn() { return sizeof(T) == 8 ? "double" : "long double"; }
static V3 rotz(V3 v, LD t) { return {v.x * cosl(t) - v.y * sinl(t), v.x * sinl(t) + v.y * cosl(t), v.z}; }
static V3 rotx(V3 v, LD t) { return {v.x, v.y * cosl(t) - v.z * sinl(t), v.y * sinl(t) + v.z * cosl(t)}; }
// the state on the conic: periapsis in the orbital plane at the angle omega + pi from the node
static void conic(LD u, LD p, LD e, LD i, LD Om, LD om, LD nu, V3& r, V3& v) {
    LD d = p / (1 + e * cosl(nu)), w = sqrtl(u / p);
    r = {d * cosl(nu), d * sinl(nu), 0}, v = {-w * sinl(nu), w * (e + cosl(nu)), 0};
    r = rotz(rotx(rotz(r, om + PI), i), Om), v = rotz(rotx(rotz(v, om + PI), i), Om);
}
template <typename T> static const T eps = hub::math::epsilon_v<double>;  // consts::pi is a double for every scalar type
// checks everything about a state (dr, dv) of masses m1, m2
template <typename T> static void state(mc::Case& c, T m1, T m2, hub::Vec3<T> dr, hub::Vec3<T> dv, std::string const& t, bool acc) {
    V3 R = up(dr), V = up(dv), L = cr(R, V);
    LD u = ((LD)m1 + m2) * hub::consts::G, r = len(R), v = len(V), l = len(L), rv = dot(R, V);
    if (!(l > 1e-7L * r * v)) return;  // radial motion has no elements of this kind
    LD s = l / (r * v), k = v * v * r / u, E = eps<T>;
    V3 rl = (1 / u) * ((v * v - u / r) * R - rv * V);
    LD e = len(rl), ae = -u / (v * v - 2 * u / r), errE = 16 * E * (k + 1), errA = 16 * E * (v * v + 2 * u / r) / fabsl(v * v - 2 * u / r);
    auto rel = [](LD a, LD b, LD tol) { return fabsl(a - b) <= tol * fabsl(b); };
    // derived quantities
    T U = (m1 + m2) * hub::consts::G;
    auto rl2 = up(ob::calc_runge_lenz_vector(U, dr, dv));
    c.check(len(rl2 - rl) <= errE, "calc_runge_lenz_vector", t);
    c.check(fabsl(ob::calc_eccentricity(U, dr, dv) - e) <= errE, "calc_eccentricity", t);
    auto [a1, e1] = ob::calc_a_e(U, dr, dv);
    auto [a2, e2] = ob::calc_a_RL_vector(U, dr, dv);
    auto [a3, e3, l3] = ob::calc_a_e_L(m1, m2, dr, dv);
    c.check(fabsl(e1 - e) <= errE && len(up(e2) - rl) <= errE && len(up(e3) - rl) <= errE, "calc_a_e eccentricity", t);
    if (errA < .01L)
        c.check(rel(ob::calc_semi_major_axis(U, dr, dv), ae, errA) && rel(a1, ae, errA) && rel(a2, ae, errA) && rel(a3, ae, errA), "semi-major axis", t);
    LD mu = (LD)m1 * m2 / ((LD)m1 + m2);
    c.check(len(up(l3) - mu * L) <= 16 * E * mu * r * v && len(up(ob::calc_angular_momentum(m1, m2, dr, dv)) - mu * L) <= 16 * E * mu * r * v, "calc_angular_momentum", t);
    if (ae > 0 && errA < .01L) c.check(rel(ob::period(m1, m2, (T)ae), 2 * PI * sqrtl(ae * ae * ae / u), 16 * E), "period", t);
    // elements
    auto k1 = ob::coord_to_orbit(m1, m2, dr, dv);
    ob::KeplerOrbit<T> k2;
    ob::coord_to_orbit(m1, m2, dr, dv, k2);
    int w = 0;
    for (auto const* o : {&k1, &k2}) {
        std::string n = w++ ? "coord_to_orbit(out)" : "coord_to_orbit";
        std::string g = t + mc::fmt(": %s gives p=%.17Lg e=%.17Lg i=%.17Lg Omega=%.17Lg omega=%.17Lg nu=%.17Lg type %d", n.c_str(), (LD)o->p, (LD)o->e, (LD)o->i, (LD)o->Omega, (LD)o->omega, (LD)o->nu, (int)o->orbit_type);
        c.check(o->m1 == m1 && o->m2 == m2, n + " masses", g);
        c.check(rel(o->p, l * l / u, 64 * E / s), n + " p", g);
        c.check(fabsl(o->e - e) <= errE, n + " e", g);
        auto ty = o->e < 1 ? ob::OrbitType::Ellipse : o->e > 1 ? ob::OrbitType::Hyperbola : ob::OrbitType::Parabola;
        c.check(o->orbit_type == ty && (fabsl(e - 1) <= errE || ty == (e < 1 ? ob::OrbitType::Ellipse : ob::OrbitType::Hyperbola)), n + " type", g);
        LD lim = PI + 1e-12L;
        c.check(o->i >= 0 && o->i <= lim && fabsl(o->Omega) <= lim && fabsl(o->omega) <= lim && fabsl(o->nu) <= lim, n + " range", g);
        c.check(fabsl(cosl(o->i) - L.z / l) <= 16 * E / s + 1e-18L, n + " i", g);
        if (e > 2 * errE) {
            LD cn = dot(rl, R) / (e * r);
            c.check(fabsl(cosl(o->nu) - cn) <= errE / e + 32 * E / s && (fabsl(rv) <= 32 * E * r * v || (rv > 0) == (o->nu > 0) || o->nu == 0), n + " nu", g);
        }
        // the orbit these elements describe passes through the given state
        V3 R2, V2;
        conic(u, o->p, o->e, o->i, o->Omega, o->omega, o->nu, R2, V2);
        LD kk = 32 / s, cond = (1 + o->e) / fabsl(1 + o->e * cosl(o->nu));
        auto ta = [&](LD x) { return std::min(sqrtl(2 * kk * E), kk * E / std::max(fabsl(sinl(x)), 1e-30L)); };
        LD ang = ta(o->nu) * (1 + cond * fabsl(o->e * sinl(o->nu)) / (1 + o->e)) + ta(o->omega) + ta(o->Omega) + ta(o->i);
        LD tol = 64 * E * cond * (1 + k) / s + 4 * ang, wv = sqrtl(u / o->p) * (1 + o->e);
        if (!(tol < .01L)) continue;  // the digits of the state do not determine it
        c.check(len(R2 - R) <= tol * r && len(V2 - V) <= tol * wv, n + " round trip", g + mc::fmt(": off by %.3Lg of r, %.3Lg of v (tolerance %.3Lg)", len(R2 - R) / r, len(V2 - V) / v, tol));
        hub::Vec3<T> R3, V3_;
        ob::orbit_to_coord(*o, R3, V3_);
        c.check(len(up(R3) - R) <= 2 * tol * r && len(up(V3_) - V) <= 2 * tol * wv, n + " -> orbit_to_coord", g + mc::fmt(": off by %.3Lg of r, %.3Lg of v (tolerance %.3Lg)", len(up(R3) - R) / r, len(up(V3_) - V) / v, tol));
        if (acc) c.outcome(mc::Hasher()((double)o->p)((double)o->i)((double)o->omega)((double)o->nu).h);
    }
    c.transitions(10);
}
static const double EC[] = {0, 1e-12, 1e-6, .3, .9, .999, 1 - 1e-9, 1, 1 + 1e-9, 1.001, 1.5, 50};
static const double MS[][2] = {{1, .5}, {1e-3, 1e3}, {1, 0}};
static const double PS[] = {1, 1e-6, 3e5};
static const double IN[] = {0, 1e-8, .5235987755982988, 1.5707963267948966, 2.5, 3.1415925, 3.141592653589793};
static const double AN[] = {0, 1.5707963267948966, 3.141592653589793, -3.141592653589793, -1.5707963267948966, .4, -2, 3};
static const double NU[] = {0, 1e-6, -1e-6, .5, -.5, 1.5707963267948966, -1.5707963267948966, 2.5, -2.5, 3.1, -3.1, 3.141592653589793};
template <typename T> static void elements(mc::Case& c, uint64_t idx) {
    mc::Dec d(idx);
    T e = (T)d.pick(EC);
    auto& m = d.pick(MS);
    T p = (T)d.pick(PS), i = (T)d.pick(IN), Om = (T)d.pick(AN), om = (T)d.pick(AN), nu = (T)d.pick(NU), m1 = (T)m[0], m2 = (T)m[1];
    if (e >= 1 && !(1 + (LD)e * cosl(nu) > 1e-3L)) nu = (nu > 0 ? 1 : -1) * (T)(.98L * acosl(-1 / (LD)e));
    std::string t = mc::fmt("%s m=%Lg,%Lg p=%Lg e=%.17Lg i=%.9Lg Omega=%.6Lg omega=%.6Lg nu=%.9Lg", tn<T>(), (LD)m1, (LD)m2, (LD)p, (LD)e, (LD)i, (LD)Om, (LD)om, (LD)nu);
    c.sample(t);
    c.states();
    ob::KeplerOrbit<T> o(m1, m2, p, e, i, Om, om, nu);
    auto ty = e < 1 ? ob::OrbitType::Ellipse : e > 1 ? ob::OrbitType::Hyperbola : ob::OrbitType::Parabola;
    c.check(o.m1 == m1 && o.m2 == m2 && o.p == p && o.e == e && o.i == i && o.Omega == Om && o.omega == om && o.nu == nu && o.orbit_type == ty && ob::classify_orbit(e) == ty, "elements stored", t);
    V3 R, V;
    LD u = ((LD)m1 + m2) * hub::consts::G;
    conic(u, p, e, i, Om, om, nu, R, V);
    using W = hub::Vec3<T>;
    W r1, v1;
    ob::orbit_to_coord(o, r1, v1);
    auto [r2, v2] = ob::orbit_to_coord<W>(o);
    LD cond = (1 + (LD)e) / fabsl(1 + (LD)e * cosl(nu)), tol = 24 * eps<T> * cond, wv = sqrtl(u / p) * (1 + e);
    c.check(len(up(r1) - R) <= tol * len(R) && len(up(v1) - V) <= 24 * eps<T> * wv, "orbit_to_coord", t + mc::fmt(": off by %.3Lg of r, %.3Lg of v", len(up(r1) - R) / len(R), len(up(v1) - V) / len(V)));
    c.check(len(up(r2) - R) <= tol * len(R) && len(up(v2) - V) <= 24 * eps<T> * wv, "orbit_to_coord (returning)", t);
    if (e < 1) {
        LD a = (LD)p / (1 - (LD)e * e);
        c.check(fabsl(ob::period(o) / (2 * PI * sqrtl(a * a * a / u)) - 1) <= 16 * eps<T> / (1 - (LD)e), "period of an orbit", t);
        c.check(fabsl(ob::semi_latus_rectum((T)a, e) / p - 1) <= 8 * eps<T> / (1 - (LD)e), "semi_latus_rectum", t);
        if (sizeof(T) == 8) {
            ob::Elliptic el(m1, m2, (double)a, e, i, Om, om, nu);
            c.check(el.a == (double)a && fabsl(el.p / p - 1) <= 8 * eps<T> / (1 - (LD)e) && el.e == e && el.i == i && el.Omega == Om && el.omega == om && el.nu == nu && el.orbit_type == ob::OrbitType::Ellipse, "Elliptic", t);
        }
    }
    W g{(T)1, (T)-2, (T)3.5};
    V3 G = rotz(rotx(rotz(up(g), om), i), Om);
    ob::euler_rotate(g, Om, i, om);
    c.check(len(up(g) - G) <= 64 * eps<T>, "euler_rotate", t);
    c.transitions(5);
    state<T>(c, m1, m2, r1, v1, t, false);
    c.outcome(mc::Hasher()((double)r1.x)((double)r1.y)((double)v1.z).h);
}
// states with exact zeros: circular, planar and apsidal special cases
template <typename T> static void grid(mc::Case& c, uint64_t idx) {
    static const double X[] = {-2, -1, 0, 1, .5}, W[] = {-1, -.5, 0, .5, 1}, M[][2] = {{.5, .5}, {3, 1e-3}};
    mc::Dec d(idx);
    T x[6];
    for (int j = 0; j < 6; ++j) x[j] = (T)(j < 3 ? d.pick(X) : d.pick(W));
    auto& m = d.pick(M);
    T m1 = (T)m[0], m2 = (T)m[1];
    hub::Vec3<T> r{x[0], x[1], x[2]}, v{x[3], x[4], x[5]};
    if (r.x == 0 && r.y == 0 && r.z == 0) return;
    if (v.x == 0 && v.y == 0 && v.z == 0) return;
    std::string t = mc::fmt("%s m=%Lg,%Lg dr=(%Lg,%Lg,%Lg) dv=(%Lg,%Lg,%Lg)", tn<T>(), (LD)m1, (LD)m2, (LD)x[0], (LD)x[1], (LD)x[2], (LD)x[3], (LD)x[4], (LD)x[5]);
    c.sample(t);
    c.states();
    state<T>(c, m1, m2, r, v, t, true);
}
static void misc(mc::Case& c, uint64_t i) {
    static const double E[] = {-1, -1e-300, std::numeric_limits<double>::quiet_NaN(), 0, 1, 1 - 1.2e-16, 1 + 2.3e-16, 1e300, std::numeric_limits<double>::infinity()};
    double e = E[i];
    auto ty = e >= 0 && e < 1 ? ob::OrbitType::Ellipse : e == 1 ? ob::OrbitType::Parabola : e > 1 ? ob::OrbitType::Hyperbola : ob::OrbitType::None;
    c.states(), c.transitions();
    c.check(ob::classify_orbit(e) == ty, "classify_orbit", mc::fmt("e=%.17g", e));
    c.outcome((uint64_t)ty);
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    static const uint64_t N = 12 * 3 * 3 * 7 * 8 * 8 * 12, Gr = 5 * 5 * 5 * 5 * 5 * 5 * 2;
    s.push_back({"elements", "double: 12 eccentricities (0 .. 50, three next to 1) x 3 mass pairs x 3 sizes x 7 inclinations x 8 nodes x 8 periapses x 12 anomalies", [](bool) { return N; }, elements<double>, 15});
    s.push_back({"exact states", "double: all relative positions in {-2,-1,0,.5,1}^3 and velocities in {-1,-.5,0,.5,1}^3 x 2 mass pairs (exactly circular, planar, apsidal and parabolic states)", [](bool) { return Gr; }, grid<double>, 15});
    s.push_back({"classification", "9 eccentricities including negative, NaN and neighbours of 1", [](bool) { return (uint64_t)9; }, misc, 15});
    return mc::main(argc, argv, s);
}
