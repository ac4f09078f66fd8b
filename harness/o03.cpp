// O03: aggregates of clusters and moves of particles
#include <deque>

#include "mc.hpp"
#include "spaceHub.hpp"
#include "secular.hpp"
using LD = long double;
namespace ob = hub::orbit;
using V = hub::Vec3<double>;
using PS = hub::particles::SizeParticles<hub::Types<double>>::Particle;
using PP = hub::particles::PointParticles<hub::Types<double>>::Particle;
static const LD EPS = hub::math::epsilon_v<double>, PI = 3.14159265358979323846264338327950288L;
struct L3 { LD x = 0, y = 0, z = 0; };
static L3 operator+(L3 p, L3 q) { return {p.x + q.x, p.y + q.y, p.z + q.z}; }
static L3 operator-(L3 p, L3 q) { return {p.x - q.x, p.y - q.y, p.z - q.z}; }
static L3 operator*(LD s, L3 q) { return {s * q.x, s * q.y, s * q.z}; }
static LD dot(L3 p, L3 q) { return p.x * q.x + p.y * q.y + p.z * q.z; }
static LD len(L3 p) { return sqrtl(dot(p, p)); }
static L3 cross3(L3 p, L3 q) { return {p.y * q.z - p.z * q.y, p.z * q.x - p.x * q.z, p.x * q.y - p.y * q.x}; }
static L3 up(V const& v) { return {(LD)v.x, (LD)v.y, (LD)v.z}; }
template <typename P> static P mk(double m, double R, V p, V v) {
    if constexpr (std::is_same_v<P, PS>) return P{m, R, p.x, p.y, p.z, v.x, v.y, v.z};
    else return P{m, p.x, p.y, p.z, v.x, v.y, v.z};
}
template <typename P> static LD rad(P const& p) {
    if constexpr (std::is_same_v<P, PS>) return p.radius;
    else return 0;
}
// calls f with the chosen particles as arguments (form 0), a vector (1), an array (2) or a deque (3); the changes made are copied back
enum { FORMS = 4 };
template <typename P, typename F> static void with(std::vector<P>& all, std::vector<int> const& s, int form, F f) {
    auto back = [&](auto& box) { int j = 0; for (auto& q : box) all[s[j++]] = q; };
    if (form == 0) {
        switch (s.size()) {
            case 1: f(all[s[0]]); break;
            case 2: f(all[s[0]], all[s[1]]); break;
            case 3: f(all[s[0]], all[s[1]], all[s[2]]); break;
            case 4: f(all[s[0]], all[s[1]], all[s[2]], all[s[3]]); break;
            case 5: f(all[s[0]], all[s[1]], all[s[2]], all[s[3]], all[s[4]]); break;
            default: f(all[s[0]], all[s[1]], all[s[2]], all[s[3]], all[s[4]], all[s[5]]);
        }
    } else if (form == 1) { std::vector<P> b; for (int i : s) b.push_back(all[i]); f(b); back(b); }
    else if (form == 2) {
        auto arr = [&](auto b) { int j = 0; for (auto& q : b) q = all[s[j++]]; f(b); back(b); };
        if (s.size() == 1) arr(std::array<P, 1>{});
        else if (s.size() == 2) arr(std::array<P, 2>{});
        else if (s.size() == 3) arr(std::array<P, 3>{});
        else if (s.size() == 4) arr(std::array<P, 4>{});
        else if (s.size() == 5) arr(std::array<P, 5>{});
        else arr(std::array<P, 6>{});
    } else { std::deque<P> b; for (int i : s) b.push_back(all[i]); f(b); back(b); }
}
static std::vector<std::vector<int>> const& subsets() {  // every ordered choice that matters: all subsets, and a few orders
    static const std::vector<std::vector<int>> s{{0}, {1}, {3}, {0, 1}, {1, 0}, {2, 3}, {0, 3}, {0, 1, 2}, {3, 1, 0}, {1, 2, 3}, {0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {0, 1, 2, 3, 4}, {4, 2, 5, 0, 1}, {5, 3, 1, 0, 4, 2}};
    return s;
}
static const double Mass[] = {1, 1e-3, 250}, Pos[][3] = {{0, 0, 0}, {1, 0, 0}, {-2, 3, .5}, {1e4, -1e3, 7}, {.25, .5, -1}}, Vel[][3] = {{0, 0, 0}, {.5, -1, 2}, {-30, 4, .125}};
template <typename P> static std::vector<P> config(mc::Dec& d) {
    std::vector<P> a;
    int k0 = d(5), dm = d(3), dv = d(3), dp = d(3);
    static const int step[] = {1, 2, 3};
    for (int i = 0; i < 6; ++i) {
        auto& p = Pos[(k0 + i * step[dp]) % 5];
        auto& v = Vel[(i + dv) % 3];
        a.push_back(mk<P>(Mass[(i * 2 + dm) % 3] * (1 + i / 8.), .01 * (i + 1), V{p[0] + i * .125, p[1], p[2] - i * .25}, V{v[0], v[1] + i * .5, v[2]}));
    }
    if (dp == 1 && dm == 2) a[2].mass = 0;  // a massless particle (never alone)
    return a;
}
enum : uint64_t { NCONF = 5 * 3 * 3 * 3 };
struct Agg { LD M = 0, Ek = 0, Ep = 0, size = 0, EkS = 0, EpS = 0; L3 x, v; LD X = 0, W = 0; int n = 0; };
template <typename P> static Agg ref(std::vector<P> const& all, std::vector<int> const& s) {
    Agg r;
    r.n = s.size();
    for (int i : s) {
        auto& p = all[i];
        r.M += p.mass, r.x = r.x + (LD)p.mass * up(p.pos), r.v = r.v + (LD)p.mass * up(p.vel), r.Ek += .5L * p.mass * dot(up(p.vel), up(p.vel));
        r.X = std::max(r.X, len(up(p.pos))), r.W = std::max(r.W, len(up(p.vel)));
    }
    r.x = (1 / r.M) * r.x, r.v = (1 / r.M) * r.v;
    for (size_t i = 0; i < s.size(); ++i)
        for (size_t j = i + 1; j < s.size(); ++j) {
            LD q = len(up(all[s[i]].pos) - up(all[s[j]].pos));
            r.Ep -= hub::consts::G * (LD)all[s[i]].mass * all[s[j]].mass / q, r.size = std::max(r.size, q);
        }
    if (s.size() == 1) r.size = rad(all[s[0]]);
    return r;
}
static bool near(LD x, LD y, LD tol) { return fabsl(x - y) <= tol; }
template <typename P> static std::string desc(std::vector<P> const& a, std::vector<int> const& s, int form) {
    static const char* fn[] = {"arguments", "vector", "array", "deque"};
    std::string t = std::string(fn[form]) + " of particles";
    for (int i : s) t += mc::fmt(" %d(m=%g p=%g,%g,%g v=%g,%g,%g)", i, a[i].mass, a[i].pos.x, a[i].pos.y, a[i].pos.z, a[i].vel.x, a[i].vel.y, a[i].vel.z);
    return t;
}
template <typename P> static void aggregates(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto all = config<P>(d);
    auto keep = all;
    auto& s = d.pick(subsets());
    int form = d(FORMS);
    Agg r = ref(all, s);
    std::string t = desc(all, s, form);
    c.sample(t);
    c.states(), c.transitions(9);
    with(all, s, form, [&](auto const&... p) {
        LD e = 32 * EPS;
        c.check(near(ob::M_tot(p...), r.M, e * r.M), "M_tot", t);
        c.check(len(up(ob::COM_p(p...)) - r.x) <= e * r.X, "COM_p", t);
        c.check(len(up(ob::COM_v(p...)) - r.v) <= e * r.W, "COM_v", t);
        c.check(near(ob::E_k(p...), r.Ek, e * r.Ek), "E_k", t);
        LD ep = 0;  // rounding of the distances
        if (r.n > 1) ep = e * fabsl(r.Ep) * (1 + r.X / .05L);
        c.check(near(ob::E_p(p...), r.Ep, ep), "E_p", t + mc::fmt(": %.17Lg instead of %.17Lg", (LD)ob::E_p(p...), r.Ep));
        LD kc = .5L * r.M * dot(r.v, r.v);
        c.check(near(ob::E_k_COM(p...), kc, e * (r.Ek + kc)), "E_k_COM", t);
        c.check(near(ob::E_tot(p...), r.Ek + r.Ep, ep + e * r.Ek), "E_tot", t);
        c.check(near(ob::E_inner(p...), r.Ek + r.Ep - kc, ep + 2 * e * r.Ek), "E_inner", t);
        LD sz = ob::cluster_size(p...);
        c.check(near(sz, r.size, e * (r.size + (r.n > 1 ? r.X : 0))), "cluster_size", t + mc::fmt(": %.17Lg instead of %.17Lg", sz, r.size));
        c.outcome(mc::Hasher()((double)ob::E_tot(p...))((double)sz).h);
    });
    if (form == 0 && s.size() > 1) {
        bool ok = true;
        auto cmp = [&](auto const& g) { ok = g.size() == s.size(); for (size_t j = 0; ok && j < s.size(); ++j) ok = g[j].mass == all[s[j]].mass && g[j].pos.x == all[s[j]].pos.x && g[j].vel.y == all[s[j]].vel.y; };
        if (s.size() == 2) cmp(ob::group(all[s[0]], all[s[1]]));
        if (s.size() == 3) cmp(ob::group(all[s[0]], all[s[1]], all[s[2]]));
        if (s.size() == 4) cmp(ob::group(all[s[0]], all[s[1]], all[s[2]], all[s[3]]));
        if (s.size() == 5) cmp(ob::group(all[s[0]], all[s[1]], all[s[2]], all[s[3]], all[s[4]]));
        if (s.size() == 6) cmp(ob::group(all[s[0]], all[s[1]], all[s[2]], all[s[3]], all[s[4]], all[s[5]]));
        c.check(ok, "group", t);
    }
}
// quantities of two clusters
template <typename P> static void two(mc::Case& c, uint64_t i) {
    static const std::vector<std::pair<std::vector<int>, std::vector<int>>> prs{{{0}, {1}}, {{1}, {0}}, {{0, 1}, {2}}, {{2}, {1, 0}}, {{0, 1}, {2, 3}}, {{3, 2}, {0}}, {{0, 2, 3}, {1}}, {{1}, {3, 0, 2}}};
    mc::Dec d(i);
    auto all = config<P>(d);
    auto& [s1, s2] = d.pick(prs);
    int f1 = d(FORMS), f2 = d(FORMS);
    // several particles make one argument only in a container
    if (f1 == 0 && s1.size() > 1) return;
    if (f2 == 0 && s2.size() > 1) return;
    Agg r1 = ref(all, s1), r2 = ref(all, s2);
    if (r1.M == 0 || r2.M == 0) return;
    L3 R = r1.x - r2.x, W = r1.v - r2.v;
    LD q = len(R), u = hub::consts::G * (r1.M + r2.M), X = std::max(r1.X, r2.X), w = len(W), rv = dot(R, W), h = 2 / q - w * w / u;
    if (!(q > 1e-3L * X) || !(w > 0)) return;
    std::string t = desc(all, s1, f1) + " and " + desc(all, s2, f2);
    c.sample(t);
    c.states();
    LD e = 64 * EPS * (1 + X / q), a = 1 / h, ecc = len((1 / u) * ((w * w - u / q) * R - rv * W)), k = q * w * w / u, ea = 4 * e * (2 / q + w * w / u * (1 + std::max(r1.W, r2.W) / w)) / fabsl(h), ee = 4 * e * (1 + k) * (1 + std::max(r1.W, r2.W) / w);
    with(all, s1, f1, [&](auto const& g1, auto const&... x) {
        if constexpr (sizeof...(x) == 0)
            with(all, s2, f2, [&](auto const& g2, auto const&... y) {
                if constexpr (sizeof...(y) == 0) {
                    using G1 = std::remove_cv_t<std::remove_reference_t<decltype(g1)>>;
                    using G2 = std::remove_cv_t<std::remove_reference_t<decltype(g2)>>;
                    c.transitions(8);
                    c.check(near(ob::M_rdc(g1, g2), r1.M * r2.M / (r1.M + r2.M), 16 * EPS * std::min(r1.M, r2.M)), "M_rdc", t);
                    auto [a1, e1] = ob::calc_a_e(g1, g2);
                    c.check(near(ob::calc_eccentricity(g1, g2), ecc, ee) && near(e1, ecc, ee), "calc_eccentricity", t + mc::fmt(": %.17g, %.17g instead of %.17Lg", ob::calc_eccentricity(g1, g2), e1, ecc));
                    if (ea < .01L) {
                        c.check(near(ob::calc_semi_major_axis(g1, g2), a, ea * fabsl(a)) && near(a1, a, ea * fabsl(a)), "calc_semi_major_axis", t + mc::fmt(": %.17g instead of %.17Lg", ob::calc_semi_major_axis(g1, g2), a));
                        if (a > 0) c.check(near(ob::period(g1, g2), 2 * PI * sqrtl(a * a * a / u), (2 * ea + 16 * EPS) * 2 * PI * sqrtl(a * a * a / u)), "period", t);
                    }
                    double Ra = .5, Rb = 2;
                    auto tf = [&](std::tuple<double, double> g, LD A, LD B, const char* n) {
                        LD x = r2.M / r1.M * powl(A / q, 3), y = r1.M / r2.M * powl(B / q, 3);
                        c.check(near(std::get<0>(g), x, 4 * e * x) && near(std::get<1>(g), y, 4 * e * y), n, t + mc::fmt(": %.9g, %.9g instead of %.9Lg, %.9Lg", std::get<0>(g), std::get<1>(g), x, y));
                    };
                    tf(ob::tidal_factor(g1, g2, Ra, Rb), Ra, Rb, "tidal_factor(sizes given)");
                    LD se = 1e-14L * (1 + X);
                    if (s1.size() == 1 && s2.size() == 1) se = 0;
                    if (se == 0 || (se < 1e-10L * r1.size && se < 1e-10L * r2.size)) tf(ob::tidal_factor(g1, g2), r1.size, r2.size, "tidal_factor");
                    LD te = -hub::consts::G * r1.M * r2.M * (Ra + Rb) / (q * q);
                    c.check(near(ob::E_tid(g1, g2, Ra, Rb), te, 4 * e * fabsl(te)), "E_tid(sizes given)", t);
                    if constexpr (MC_HAS(G1, ob::E_tid(q, q))) {
                        LD tt = -hub::consts::G * r1.M * r2.M * (r1.size + r2.size) / (q * q);
                        c.check(near(ob::E_tid(g1, g2), tt, (4 * e + 1e-9L) * fabsl(tt)), "E_tid", t);
                    }
                    if constexpr (hub::is_ranges_v<G1> && hub::is_ranges_v<G2>)
                        for (double f : {.01, 1., 2.}) {
                            LD tr = cbrtl(r1.M / (f * r2.M));
                            c.check(near(ob::tidal_radius(f, g1, g2, Rb), tr * Rb, 1e-14L * tr * Rb), "tidal_radius(size given)", t);
                            c.check(near(ob::tidal_radius(f, g1, g2), tr * r2.size, tr * (1e-14L * r2.size + 16 * EPS * r2.X)), "tidal_radius", t);
                        }
                    c.outcome(mc::Hasher()(e1)(a1).h);
                }
            });
    });
}
// sequences of moves
static std::vector<V> targets() { return {V{0, 0, 0}, V{1, -2, .5}, V{-1e4, 3, 1e-3}}; }
static std::vector<ob::Kepler> orbits() { return {ob::Kepler(1., 2., 3., .5, .3, 1., -2., .7), ob::Kepler(10., 1., 2., 1., 1.3, 0., 2., -.7), ob::Hyperbolic(1., 2., 3., .5, .3, 1., -2., 50.), ob::Elliptic(1., 2., 3., .9, 2.3, 1., -2., 3.1)}; }
enum { OPS = 6 };  // pos, vel, both, to another particle, COM frame, orbit
template <typename P> static void moves(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto all = config<P>(d);
    int depth = c.thorough ? 3 : 2;
    std::string t;
    for (int k = 0; k < depth; ++k) {
        auto& s = k == 0 ? d.pick(subsets()) : subsets()[(d(3) * 4 + 3 + k) % subsets().size()];
        int form = d(FORMS), op = d(OPS), tg = (k * 2 + op + form) % 3;
        auto before = all;
        Agg r = ref(all, s);
        V tp = targets()[tg], tv = targets()[(tg + 1) % 3];
        int other = -1;
        for (int j = 0; j < 6 && other < 0; ++j)
            if (std::find(s.begin(), s.end(), j) == s.end()) other = j;
        if (op == 3 && other < 0) other = s[0];  // one of the particles moved
        bool mp = op != 1, mv = op != 0;
        auto o = orbits()[(tg + form + s.size()) % 4];
        static const char* on[] = {"move_particles_pos", "move_particles_vel", "move_particles", "move_particles to a particle", "move_to_COM_frame", "move_particles to an orbit"};
        t += mc::fmt("; %s ", on[op]) + desc(all, s, form);
        if (op == 3) tp = all[other].pos, tv = all[other].vel;
        with(all, s, form, [&](auto&... p) {
            if (op == 0) ob::move_particles_pos(tp, p...);
            else if (op == 1) ob::move_particles_vel(tv, p...);
            else if (op == 2) ob::move_particles(tp, tv, p...);
            else if (op == 3) ob::move_particles(all[other].pos, all[other].vel, p...);
            else if (op == 4) ob::move_to_COM_frame(p...), tp = tv = V{0, 0, 0};
            else {
                auto [x, v] = ob::orbit_to_coord<V>(o);
                tp = x, tv = v;
                if ((tg + form + s.size()) % 4 == 3) ob::move_particles(ob::Elliptic(1., 2., 3., .9, 2.3, 1., -2., 3.1), p...);
                else if ((tg + form + s.size()) % 4 == 2) ob::move_particles(ob::Hyperbolic(1., 2., 3., .5, .3, 1., -2., 50.), p...);
                else ob::move_particles(o, p...);
            }
        });
        c.states(), c.transitions();
        Agg q = ref(all, s);
        LD xs = r.X + len(up(tp)) + 1e-300L, vs = r.W + len(up(tv)) + 1e-300L, e = 32 * EPS;
        c.check(len(q.x - (mp ? up(tp) : r.x)) <= (mp ? e * xs : 0), std::string(on[op]) + " centre of mass position", t.substr(2) + mc::fmt(": off by %.3Lg", len(q.x - (mp ? up(tp) : r.x))));
        c.check(len(q.v - (mv ? up(tv) : r.v)) <= (mv ? e * vs : 0), std::string(on[op]) + " centre of mass velocity", t.substr(2));
        for (int j = 0; j < 6; ++j) {
            bool in = std::find(s.begin(), s.end(), j) != s.end();
            auto &x = all[j], &y = before[j];
            c.check(x.mass == y.mass && rad(x) == rad(y), std::string(on[op]) + " changes masses or radii", t.substr(2));
            auto same = [](V const& p, V const& q) { return p.x == q.x && p.y == q.y && p.z == q.z; };
            if (!in || !mp) c.check(same(x.pos, y.pos), std::string(on[op]) + " changes other positions", t.substr(2));
            if (!in || !mv) c.check(same(x.vel, y.vel), std::string(on[op]) + " changes other velocities", t.substr(2));
            if (in)
                c.check(len((up(x.pos) - up(all[s[0]].pos)) - (up(y.pos) - up(before[s[0]].pos))) <= e * xs && len((up(x.vel) - up(all[s[0]].vel)) - (up(y.vel) - up(before[s[0]].vel))) <= e * vs, std::string(on[op]) + " changes relative coordinates", t.substr(2));
        }
        if (!c.failed_.empty()) return;
    }
    c.sample(t.substr(2));
    c.outcome(mc::Hasher()(all[0].pos.x)(all[3].vel.y)(all[1].pos.z).h);
}
static void formulas(mc::Case& c, uint64_t i) {
    static const double X[] = {1e-3, .5, 1, 7, 1e4};
    mc::Dec d(i);
    double p = d.pick(X), q = d.pick(X), r = d.pick(X), s = d.pick(X), w = d.pick(X);
    std::string t = mc::fmt("(%g,%g,%g,%g,%g)", p, q, r, s, w);
    c.sample(t);
    c.states(), c.transitions(4);
    auto rel = [](LD x, LD y) { return fabsl(x - y) <= 1e-13L * fabsl(y); };
    auto [f1, f2] = ob::tidal_factor(p, q, r, s, w);
    c.check(rel(f1, (LD)r / q * powl((LD)s / p, 3)) && rel(f2, (LD)q / r * powl((LD)w / p, 3)), "tidal_factor of numbers", t);
    LD a1 = cbrtl((LD)q / ((LD)p * r)) * w, a2 = cbrtl((LD)r / ((LD)p * q)) * s;
    c.check(rel(ob::tidal_radius(p, q, r, w), a1), "tidal_radius of numbers", t);
    c.check(rel(ob::tidal_radius(p, q, r, s, w), std::max(a1, a2)), "tidal_radius of both", t);
    for (double e : {0., .3, .99}) {
        LD g = s * sqrtl(1 - (LD)e * e) / r, ref = 2 * PI * sqrtl((LD)r * r * r / (hub::consts::G * ((LD)p + q))) * ((LD)p + q) / w * g * g * g;
        c.check(rel(hub::secular::ELK_quad_timescale(p, q, w, r, s, e), ref), "ELK_quad_timescale", t);
        c.check(rel(hub::secular::ELK_quad_timescale(ob::Elliptic(p, q, r, .2, .1, .2, .3, .4), ob::Elliptic(p + q, w, s, e, .1, .2, .3, .4)), ref), "ELK_quad_timescale of orbits", t);
    }
    c.outcome(mc::Hasher()(f1)(f2).h);
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    uint64_t S = subsets().size();
    std::string al = mc::fmt("%d configurations of six particles x %d groupings (1..6 of them, in several orders) as arguments, vector, array and deque", (int)NCONF, (int)S);
    s.push_back({"aggregates", al, [=](bool) { return NCONF * S * FORMS; }, aggregates<PS>, 15});
    s.push_back({"aggregates of point particles", al, [=](bool) { return NCONF * S * FORMS; }, aggregates<PP>, 15});
    s.push_back({"two clusters", mc::fmt("%d configurations x 8 pairs of groupings x all forms of both", (int)NCONF), [](bool) { return NCONF * 8 * FORMS * FORMS; }, two<PS>, 15});
    s.push_back({"two clusters of point particles", mc::fmt("%d configurations x 8 pairs of groupings x all forms of both", (int)NCONF), [](bool) { return NCONF * 8 * FORMS * FORMS; }, two<PP>, 15});
    auto n = [=](bool th) { return NCONF * S * (FORMS * OPS) * mc::ipow(3 * FORMS * OPS, th ? 2 : 1); };
    s.push_back({"moves", al + " x all sequences of 2 (thorough: 3) moves (position, velocity, both, to a particle, to the centre of mass frame, onto an orbit)", n, moves<PS>, 15});
    s.push_back({"moves of point particles", "the same for point particles, 2 moves", [=](bool th) { return th ? 0 : n(false); }, moves<PP>, 15});
    s.push_back({"formulas", "all 5-tuples over {1e-3,.5,1,7,1e4}", [](bool) { return (uint64_t)3125; }, formulas, 15});
    return mc::main(argc, argv, s);
}
