// Reference physics in long double, written from the published formulas, independent of the library's code.
#pragma once
#include "mc.hpp"
#include "spaceHub.hpp"
using namespace hub;
using mc::fmt;
using LD = long double;
struct V3 {
    LD x = 0, y = 0, z = 0;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(LD s, V3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline V3& operator+=(V3& a, V3 b) { return a = a + b; }
inline LD dotp(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 crossp(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline LD normp(V3 a) { return sqrtl(dotp(a, a)); }
template <typename T> inline LD ld(T const& v) {
    if constexpr (MC_HAS(T, q.value) && MC_HAS(T, q.err)) return (LD)v.value + (LD)v.err;
    else return (LD)v;
}
template <typename V> inline V3 v3(V const& v) { return {ld(v.x), ld(v.y), ld(v.z)}; }

struct Body {
    LD m = 1;
    V3 x, v;
    LD R = 0, k = 0, tau = 0, c = 0, cs = 0;  // radius, apsidal constant, lag time, drag coefficient, sound speed
};
using Bodies = std::vector<Body>;
using Acc = std::vector<V3>;

namespace ref {
constexpr LD pi = 3.14159265358979323846264338327950288L;
inline LD C() { return (LD)consts::C; }
inline void newton(Bodies const& b, Acc& a) {
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j)
            if (i != j) {
                V3 d = b[j].x - b[i].x;
                LD r = normp(d);
                a[i] += (b[j].m / (r * r * r)) * d;
            }
}
// Blanchet, Living Rev. Relativity 17 (2014) 2, eq. (203), acceleration of body 1 due to body 2, G = 1
inline V3 pn1(Body const& p, Body const& q) {
    LD m1 = p.m, m2 = q.m;
    V3 d = p.x - q.x;
    LD r = normp(d);
    V3 n = (1 / r) * d, w = p.v - q.v;
    LD nv1 = dotp(n, p.v), nv2 = dotp(n, q.v), v11 = dotp(p.v, p.v), v22 = dotp(q.v, q.v), v12 = dotp(p.v, q.v);
    LD A = 5 * m1 * m2 / (r * r * r) + 4 * m2 * m2 / (r * r * r) + m2 / (r * r) * (1.5L * nv2 * nv2 - v11 + 4 * v12 - 2 * v22);
    LD B = m2 / (r * r) * (4 * nv1 - 3 * nv2);
    LD c2 = C() * C();
    return (1 / c2) * (A * n + B * w);
}
inline V3 pn2(Body const& p, Body const& q) {
    LD m1 = p.m, m2 = q.m;
    V3 d = p.x - q.x;
    LD r = normp(d), r2 = r * r, r3 = r2 * r, r4 = r2 * r2;
    V3 n = (1 / r) * d, w = p.v - q.v;
    LD a = dotp(n, p.v), b = dotp(n, q.v), v11 = dotp(p.v, p.v), v22 = dotp(q.v, q.v), v12 = dotp(p.v, q.v);
    LD A = -57 * m1 * m1 * m2 / (4 * r4) - 69 * m1 * m2 * m2 / (2 * r4) - 9 * m2 * m2 * m2 / r4 +
           m2 / r2 * (-1.875L * b * b * b * b + 1.5L * b * b * v11 - 6 * b * b * v12 - 2 * v12 * v12 + 4.5L * b * b * v22 + 4 * v12 * v22 - 2 * v22 * v22) +
           m1 * m2 / r3 * (19.5L * a * a - 39 * a * b + 8.5L * b * b - 3.75L * v11 - 2.5L * v12 + 1.25L * v22) +
           m2 * m2 / r3 * (2 * a * a - 4 * a * b - 6 * b * b - 8 * v12 + 4 * v22);
    LD B = m2 * m2 / r3 * (-2 * a - 2 * b) + m1 * m2 / r3 * (-15.75L * a + 13.75L * b) +
           m2 / r2 * (-6 * a * b * b + 4.5L * b * b * b + b * v11 - 4 * a * v12 + 4 * b * v12 + 4 * a * v22 - 5 * b * v22);
    LD c4 = C() * C() * C() * C();
    return (1 / c4) * (A * n + B * w);
}
inline V3 pn25(Body const& p, Body const& q) {
    LD m1 = p.m, m2 = q.m;
    V3 d = p.x - q.x;
    LD r = normp(d), r3 = r * r * r, r4 = r3 * r;
    V3 n = (1 / r) * d, w = p.v - q.v;
    LD nw = dotp(n, w), w2 = dotp(w, w);
    LD A = 208 * m1 * m2 * m2 / (15 * r4) * nw - 24 * m1 * m1 * m2 / (5 * r4) * nw + 12 * m1 * m2 / (5 * r3) * nw * w2;
    LD B = 8 * m1 * m1 * m2 / (5 * r4) - 32 * m1 * m2 * m2 / (5 * r4) - 4 * m1 * m2 / (5 * r3) * w2;
    LD c5 = C() * C() * C() * C() * C();
    return (1 / c5) * (A * n + B * w);
}
// weak friction equilibrium tide (Hut 1981, no spin): each deformed body p attracts/brakes q along the line of centres
inline V3 tide(Body const& p, Body const& q) {
    V3 d = q.x - p.x, w = q.v - p.v;
    LD r = normp(d), rdot_r = dotp(d, w) / (r * r), F = 0;
    auto one = [&](Body const& s, Body const& o) { F += 3 * s.k * powl(s.R, 5) * o.m * o.m / powl(r, 7) * (1 + 3 * s.tau * rdot_r); };
    one(p, q);
    one(q, p);
    return (F / (p.m * r)) * d;
}
template <typename L> inline void pairs(Bodies const& b, Acc& a, L law) {
    for (size_t i = 0; i < b.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j)
            if (i != j) a[i] += law(b[i], b[j]);
}
inline void drag(Bodies const& b, Acc& a) {
    for (size_t i = 0; i < b.size(); ++i) {
        LD u = normp(b[i].v);
        LD f = u < b[i].cs ? b[i].c * b[i].m : 3 * sqrtl(pi / 2) * b[i].c * b[i].cs * b[i].cs * b[i].cs * b[i].m / (u * u * u);
        a[i] += (-f) * b[i].v;
    }
}
}  // namespace ref

// harness-defined external forces (position and velocity dependent), used next to the library's own
struct Harm {
    static constexpr bool vel_dependent{false};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); ++i) {
            a[i].x -= 0.3 * p.pos(i).x;
            a[i].y -= 0.2 * p.pos(i).y;
            a[i].z -= 0.5 * (p.pos(i).z - 0.1 * (double)i);
        }
    }
    static void ref(Bodies const& b, Acc& a) {
        for (size_t i = 0; i < b.size(); ++i) a[i] += V3{-0.3 * b[i].x.x, -0.2 * b[i].x.y, -0.5 * (b[i].x.z - 0.1 * (double)i)};
    }
};
struct Mag {  // magnetic force, drag, and a pairwise friction that (like PN) reads the chain coordinates where there are any
    static constexpr bool vel_dependent{true};
    static inline double odd = 1;  // sign of the terms that are odd in the velocities
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        size_t n = p.number();
        for (size_t i = 0; i < n; ++i) {
            auto const& v = p.vel(i);
            a[i].x += odd * (0.4 * v.y - 0.1 * v.x);
            a[i].y += odd * (-0.4 * v.x - 0.15 * v.y);
            a[i].z += odd * (-0.2 * v.z) + 0.05 * v.x * v.x;
        }
        using S = std::decay_t<decltype(a[0].x)>;
        auto pull = [&](auto const& dr, auto const& dv, size_t i, size_t j) {
            S f = 0.07 * odd / (1 + dr.x * dr.x + dr.y * dr.y + dr.z * dr.z);
            S x = f * dv.x, y = f * dv.y, z = f * dv.z;
            a[i].x += x * p.mass(j), a[i].y += y * p.mass(j), a[i].z += z * p.mass(j);
            a[j].x -= x * p.mass(i), a[j].y -= y * p.mass(i), a[j].z -= z * p.mass(i);
        };
        if constexpr (MC_HAS(P, q.chain_vel())) {
            for (size_t k = 0; k < n; ++k) {
                auto dr = p.chain_pos()[k], dv = p.chain_vel()[k];
                for (size_t l = k + 1; l < n; ++l) {
                    pull(dr, dv, p.index()[k], p.index()[l]);
                    if (l + 1 < n) dr += p.chain_pos()[l], dv += p.chain_vel()[l];
                }
            }
        } else
            for (size_t i = 0; i < n; ++i)
                for (size_t j = i + 1; j < n; ++j) pull(p.pos(j) - p.pos(i), p.vel(j) - p.vel(i), i, j);
    }
    static void ref(Bodies const& b, Acc& a) {
        size_t n = b.size();
        for (size_t i = 0; i < n; ++i) {
            V3 v = b[i].v;
            a[i] += V3{0.4 * v.y - 0.1 * v.x, -0.4 * v.x - 0.15 * v.y, -0.2 * v.z + 0.05 * v.x * v.x};
            for (size_t j = 0; j < n; ++j)
                if (j != i) {
                    V3 d = b[j].x - b[i].x;
                    a[i] += (0.07 * b[j].m / (1 + dotp(d, d))) * (b[j].v - v);
                }
        }
    }
};
struct RefNone {
    static void ref(Bodies const&, Acc&) {}
};
// Model: a Cartesian system advanced by the published maps
template <typename Indep, typename Dep, system::ReguType R, bool regu>
struct Model {
    static constexpr bool has_indep = !std::is_same_v<Indep, RefNone>, has_dep = !std::is_same_v<Dep, RefNone>;
    Bodies b;
    Acc w;  // auxiliary velocity
    LD t = 0, omega = 0, B = 0;
    size_t n() const { return b.size(); }
    LD T() const {
        LD s = 0;
        for (auto& p : b) s += 0.5L * p.m * dotp(p.v, p.v);
        return s;
    }
    LD U() const {
        LD s = 0;
        for (size_t i = 0; i < n(); ++i)
            for (size_t j = i + 1; j < n(); ++j) s += b[i].m * b[j].m / normp(b[i].x - b[j].x);
        return s;
    }
    void init() {
        omega = U(), B = U() - T();
        pre();
    }
    void pre() {
        w.clear();
        for (auto& p : b) w.push_back(p.v);
    }
    LD pos_scale() const { return !regu || R == system::ReguType::None ? 1 : R == system::ReguType::LogH ? B + T() : omega; }
    LD vel_scale() const { return !regu || R == system::ReguType::None ? 1 : U(); }
    Acc newt() const { Acc a(n()); ref::newton(b, a); return a; }
    Acc indep() const { Acc a(n()); Indep::ref(b, a); return a; }
    Acc dep(Acc const& vel) const { Bodies c = b; for (size_t i = 0; i < n(); ++i) c[i].v = vel[i]; Acc a(n()); Dep::ref(c, a); return a; }
    Acc vel() const { Acc a; for (auto& p : b) a.push_back(p.v); return a; }
    LD power(Acc const& a) const { LD s = 0; for (size_t i = 0; i < n(); ++i) s += b[i].m * dotp(b[i].v, a[i]); return s; }
    void drift(LD h) {
        LD dt = h / pos_scale();
        for (auto& p : b) p.x += dt * p.v;
        t += dt;
    }
    void kick(LD h) {
        LD dt = h / vel_scale();
        Acc N = newt(), E = indep();
        auto reg = [&](Acc const& e, LD d) {
            if (regu && R == system::ReguType::TTL) omega += power(N) * d;
            if (regu && R == system::ReguType::LogH && (has_dep || has_indep)) B -= power(e) * d;
        };
        if (!has_dep) {
            reg(E, dt / 2);
            for (size_t i = 0; i < n(); ++i) b[i].v += dt * (N[i] + E[i]);
            reg(E, dt / 2);
        } else {
            auto half = [&] {
                Acc f = dep(w);
                for (size_t i = 0; i < n(); ++i) b[i].v += (dt / 2) * (N[i] + E[i] + f[i]);
            };
            half();
            Acc f = dep(vel());
            for (size_t i = 0; i < n(); ++i) w[i] += dt * (N[i] + E[i] + f[i]), f[i] += E[i];
            reg(f, dt);
            half();
        }
    }
    // time, positions, velocities, auxiliary velocities, omega, bindE in the system's layout; idx empty: Cartesian
    template <typename I> static void put(std::vector<LD>& y, Acc const& c, I const* idx) {
        auto add = [&](V3 v) { y.push_back(v.x), y.push_back(v.y), y.push_back(v.z); };
        if (!idx) for (auto& v : c) add(v);
        else {
            for (size_t i = 0; i + 1 < c.size(); ++i) add(c[(*idx)[i + 1]] - c[(*idx)[i]]);
            add(c[(*idx)[0]]);
        }
    }
    template <typename I> std::vector<LD> state(I const* idx) const {
        std::vector<LD> y{t};
        Acc x;
        for (auto& p : b) x.push_back(p.x);
        put(y, x, idx);
        put(y, vel(), idx);
        if (has_dep) put(y, w, idx);
        if (regu) y.push_back(omega), y.push_back(B);
        return y;
    }
    template <typename I> std::vector<LD> derivative(I const* idx) const {
        LD ps = 1 / pos_scale(), vs = 1 / vel_scale();
        Acc N = newt(), E = indep(), f = dep(vel()), v = vel(), a(n());
        for (size_t i = 0; i < n(); ++i) E[i] += f[i], a[i] = vs * (N[i] + E[i]), v[i] = ps * v[i];
        std::vector<LD> y{ps};
        put(y, v, idx);
        put(y, a, idx);
        if (has_dep) put(y, a, idx);
        if (regu) {
            y.push_back(R == system::ReguType::TTL ? power(N) * vs : 0);
            y.push_back(R == system::ReguType::LogH && (has_dep || has_indep) ? -power(E) * vs : 0);
        }
        return y;
    }
};
// start configurations: a loose cluster, a hierarchical chain, a plane one (6 bodies), more bodies around them
inline Body start(int conf, int j) {
    if (j > 5) {
        auto q = [](LD x) { return (LD)(double)x; };
        LD w = 2.4L * j + conf, r = 2.6L + .4L * sqrtl(j);
        Body b;
        b.m = q(.1L + .05L * (j * 5 % 7));
        b.x = {q(r * cosl(w)), q(r * sinl(w)), q(.6L * (j * 3 % 5) - 1.2L + .013L * j)};
        b.v = {q(.3L * sinl(1.7L * j)), q(.3L * cosl(2.3L * j)), q(.2L * sinl(3.1L * j + conf))};
        return b;
    }
    static const LD X[3][6][6] = {
        {{0, 0, 0, .3, -.2, .1}, {1.1, .2, -.3, -.4, .5, 0}, {-.5, 1.4, .6, .2, .1, -.5}, {.4, -1.2, 1.0, -.6, 0, .2}, {-1.6, -.9, -.4, .1, .7, .3}, {2.3, 1.1, .7, 0, -.3, -.2}},
        {{0, 0, 0, 0, .9, .1}, {.4, .1, .05, 0, -1.1, .2}, {3, -.3, .2, -.5, .3, 0}, {3.5, .2, -.1, .2, 1.2, -.3}, {-2.8, .4, .9, .4, -.2, .1}, {-3.1, .9, 1.1, .1, .6, .5}},
        {{-1, 0, 0, 0, -.5, 0}, {1, 0, 0, 0, .5, .25}, {0, 1.5, 0, .7, 0, 0}, {.2, -1.75, 0, -.6, .1, 0}, {2.5, 2, 0, 0, 0, .4}, {-2, -2.2, 0, .3, .3, .3}}};
    static const LD M[3][6] = {{1, .7, 1.3, .4, .9, .6}, {2, .5, 1, .3, .2, .8}, {1, 1, 1, 1, 1, 1}};
    auto& q = X[conf][j];
    Body b;
    b.m = (double)M[conf][j];
    b.x = {(LD)(double)q[0], (LD)(double)q[1], (LD)(double)q[2]};
    b.v = {(LD)(double)q[3], (LD)(double)q[4], (LD)(double)q[5]};
    return b;
}
template <typename Pt> Pt mkpoint(Body const& b) {
    using S = std::decay_t<decltype(std::declval<Pt>().mass)>;
    return Pt((S)b.m, (S)b.x.x, (S)b.x.y, (S)b.x.z, (S)b.v.x, (S)b.v.y, (S)b.v.z);
}
template <typename S> struct IsChain { static constexpr bool value = MC_HAS(S, q.chain_pos()); };
template <typename S> struct IsRegu {
    template <typename U> static auto f(int) -> decltype(U::regu_type, std::true_type{});
    template <typename U> static std::false_type f(...);
    static constexpr bool value = decltype(f<S>(0))::value;
};
// advances two bodies by dt on their bound Kepler orbit about a uniformly moving centre of mass
inline void kepler(V3& x1, V3& v1, V3& x2, V3& v2, LD m1, LD m2, LD dt) {
    LD mu = m1 + m2;
    V3 X = (1 / mu) * (m1 * x1 + m2 * x2), W = (1 / mu) * (m1 * v1 + m2 * v2), r = x2 - x1, v = v2 - v1;
    LD r0 = normp(r), rv = dotp(r, v), al = 2 / r0 - dotp(v, v) / mu, a = 1 / al, n = std::sqrt(mu / (a * a * a)), M = n * dt;
    LD ec_ = 1 - r0 / a, es = rv / std::sqrt(mu * a);
    LD lo = M - 3, hi = M + 3;
    auto f = [&](LD E) { return E - ec_ * std::sin(E) + es * (1 - std::cos(E)) - M; };
    for (int i = 0; i < 100; ++i) { LD m = (lo + hi) / 2; (f(m) > 0 ? hi : lo) = m; }
    LD E = (lo + hi) / 2;
    for (int i = 0; i < 3; ++i) E -= f(E) / (1 - ec_ * std::cos(E) + es * std::sin(E));
    LD ff = 1 - a / r0 * (1 - std::cos(E)), g = dt - (E - std::sin(E)) / n;
    V3 R = ff * r + g * v;
    LD rr = normp(R), fd = -std::sqrt(mu * a) / (rr * r0) * std::sin(E), gd = 1 - a / rr * (1 - std::cos(E));
    V3 Vv = fd * r + gd * v;
    X = X + dt * W;
    x1 = X - (m2 / mu) * R, x2 = X + (m1 / mu) * R, v1 = W - (m2 / mu) * Vv, v2 = W + (m1 / mu) * Vv;
}
