// F01: accelerations of every force set in every representation, for every labelling and every chain order of the
// enumerated configurations, against long double sums of the published pair laws.
#include "phys.hpp"
#include "interaction/alpha-disk.hpp"
#include "interaction/disk-capture-star.hpp"
#include "interaction/magneto-disk.hpp"
#include "interaction/static-gas-drag.hpp"
#ifndef GROUP
#define GROUP 0
#endif
using Nw = force::NewtonianGrav;
using system::ReguType;
static const LD RAD[6] = {0.11L, 0.07L, 0.3L, 0.02L, 0.15L, 0.09L}, KAM[6] = {0.014L, 0, 0.6L, 0.1L, 0, 0.3L}, TAU[6] = {0.02L, 0.1L, 0.3L, 0, 0.05L, 0.4L};
static const LD SUB[6] = {0.5L, 0.2L, 0, 1.5L, 0.7L, 0.9L}, CS[6] = {0.3L, 0.9L, 0.5L, 0.2L, 0.8L, 0.4L};
static Body body(int conf, int j, int variant) {
    Body b = start(conf, j);
    auto d = [](LD x) { return (LD)(double)x; };
    int k = j % 6;
    b.R = d(RAD[k]), b.k = d(KAM[(j + 3 * (variant & 1)) % 6]), b.tau = d(TAU[k]), b.c = d(SUB[k]), b.cs = d(CS[k]);
    if (variant & 1) {  // another origin and another frame
        b.x += V3{4, -2.5L, 1.25L};
        b.v += V3{-0.5L, 0.25L, 1};
    }
    if (variant & 2) b.x = {4 * b.x.x, 4 * b.x.y, 4 * b.x.z}, b.v = {b.v.x / 2, b.v.y / 2, b.v.z / 2};
    return b;
}
template <typename T> using Vt = typename Types<T>::Vector;
template <typename Pt> Pt mk(Body const& b) {
    using S = std::decay_t<decltype(std::declval<Pt>().mass)>;
    auto s = [](LD x) { return (S)x; };
    if constexpr (MC_HAS(Pt, q.tide_lag_time)) return Pt(s(b.m), s(b.R), s(b.k), s(b.tau), s(b.x.x), s(b.x.y), s(b.x.z), s(b.v.x), s(b.v.y), s(b.v.z));
    else if constexpr (MC_HAS(Pt, q.local_cs)) return Pt(s(b.m), s(b.c), s(b.cs), s(b.x.x), s(b.x.y), s(b.x.z), s(b.v.x), s(b.v.y), s(b.v.z));
    else if constexpr (MC_HAS(Pt, q.radius)) return Pt(s(b.m), s(b.R), s(b.x.x), s(b.x.y), s(b.x.z), s(b.v.x), s(b.v.y), s(b.v.z));
    else return mkpoint<Pt>(b);
}
// reference of each law: acceleration and the sum of the magnitudes of its terms (error scale)
template <typename F> struct Law;
template <> struct Law<Nw> { static constexpr bool vd = false; static void f(Bodies const& b, Acc& a) { ref::newton(b, a); } };
template <> struct Law<force::PN1> { static constexpr bool vd = true; static void f(Bodies const& b, Acc& a) { ref::pairs(b, a, ref::pn1); } };
template <> struct Law<force::PN2> { static constexpr bool vd = true; static void f(Bodies const& b, Acc& a) { ref::pairs(b, a, ref::pn2); } };
template <> struct Law<force::PN2p5> { static constexpr bool vd = true; static void f(Bodies const& b, Acc& a) { ref::pairs(b, a, ref::pn25); } };
template <> struct Law<force::Tidal> { static constexpr bool vd = true; static void f(Bodies const& b, Acc& a) { ref::pairs(b, a, ref::tide); } };
template <> struct Law<force::StaticGasDrag> { static constexpr bool vd = true; static void f(Bodies const& b, Acc& a) { ref::drag(b, a); } };
template <> struct Law<Harm> { static constexpr bool vd = false; static void f(Bodies const& b, Acc& a) { Harm::ref(b, a); } };
template <> struct Law<Mag> { static constexpr bool vd = true; static void f(Bodies const& b, Acc& a) { Mag::ref(b, a); } };
static LD amax(Acc const& a) {
    LD s = 0;
    for (auto& v : a) s = std::max(s, normp(v));
    return s;
}
static std::vector<int> perm(int n, uint64_t i) {
    std::vector<int> p, r;
    if (n > 8) {  // four orders: as given, reversed, every third one, from both ends
        for (int j = 0; j < n; ++j) p.push_back(i == 0 ? j : i == 1 ? n - 1 - j : i == 2 ? 0 : j % 2 ? n - 1 - j / 2 : j / 2);
        if (i == 2) {
            p.clear();
            for (int o = 0; o < 3; ++o) for (int j = o; j < n; j += 3) p.push_back(j);
        }
        return p;
    }
    for (int j = 0; j < n; ++j) p.push_back(j);
    for (int j = n; j; --j) {
        r.push_back(p[i % j]);
        p.erase(p.begin() + i % j);
        i /= j;
    }
    return r;
}
static uint64_t fact(int n) { return n > 8 ? 4 : n < 2 ? 1 : n * fact(n - 1); }
template <typename VA> Acc get(VA const& a) {
    Acc r;
    for (auto& v : a) r.push_back(v3(v));
    return r;
}
template <typename T> struct Sys_tag {
    using type = T;
    const char* name;
};
// one force set in one representation
template <typename Sys, typename... Ex>
mc::Suite suite(std::string tn, int n, int labq, int ordq) {
    using F = force::Interactions<Nw, Ex...>;
    constexpr bool chain = IsChain<Sys>::value;
    auto cap = [](uint64_t x, int lim) { return lim ? std::min<uint64_t>(x, lim) : x; };
    return {fmt("%s n=%d", tn.c_str(), n),
            fmt("3 configurations x 4 variants (origin/frame, scale, tide constants) x %s labellings x %s", labq ? fmt("%d (thorough: all)", labq).c_str() : n > 8 ? "4" : "all", chain ? (ordq ? fmt("%d (thorough: all) chain orders", ordq).c_str() : n > 8 ? "4 chain orders" : "all chain orders") : "Cartesian"),
            [=](bool t) { return 12 * cap(fact(n), t ? 0 : labq) * (chain ? cap(fact(n), t ? 0 : ordq) : 1); },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                using VA = typename Sys::VectorArray;
                mc::Dec d(i);
                int conf = d(3), variant = d(4);
                uint64_t nl = cap(fact(n), k.thorough ? 0 : labq), no = chain ? cap(fact(n), k.thorough ? 0 : ordq) : 1;
                auto lab = perm(n, d(nl) * (fact(n) / nl)), ord = perm(n, d(no) * (fact(n) / no));
                std::vector<typename Sys::Particle> v;
                Bodies b;
                for (int j = 0; j < n; ++j) b.push_back(body(conf, lab[j], variant)), b.back().m *= variant == 3 && conf == 1 && lab[j] == 1 && n > 2 && !(std::is_same_v<Ex, force::Tidal> || ... || false) ? 0 : 1, v.push_back(mk<typename Sys::Particle>(b.back()));
                std::string h = fmt("conf %d variant %d labels", conf, variant);
                for (int x : lab) h += fmt("%d", x);
                Sys s((S)0, v);
                if constexpr (chain) {
                    h += " chain";
                    for (int j = 0; j < n; ++j) s.index()[j] = ord[j], h += fmt("%d", ord[j]);
                    Chain::calc_chain(s.pos(), s.chain_pos(), s.index());
                    Chain::calc_chain(s.vel(), s.chain_vel(), s.index());
                }
                auto cmp = [&](Acc const& a, Acc const& r, LD scale, LD tol, std::string what) {
                    for (int j = 0; j < n; ++j)
                        if (!(normp(a[j] - r[j]) <= tol * scale)) {
                            k.fail(tn + " " + what, h + fmt(" particle %d: (%.12Lg,%.12Lg,%.12Lg) expected (%.12Lg,%.12Lg,%.12Lg)", j, a[j].x, a[j].y, a[j].z, r[j].x, r[j].y, r[j].z));
                            return false;
                        }
                    return true;
                };
                const LD eps = std::is_same_v<S, long double> ? 1e-15L : 1e-12L;
                bool ok = true;
                Acc tot(n), dep(n), indep(n), N(n);
                auto each = [&](auto tag, const char* nm) {
                    using G = typename decltype(tag)::type;
                    Acc r(n);
                    Law<G>::f(b, r);
                    if (Law<G>::vd) for (int j = 0; j < n; ++j) dep[j] += r[j];
                    else if (!std::is_same_v<G, Nw>) for (int j = 0; j < n; ++j) indep[j] += r[j];
                    else N = r;
                    ok = ok && k.check(G::vel_dependent == Law<G>::vd, std::string(nm) + " classification", h);
                    VA a(n);
                    calc::array_set_zero(a);
                    G::add_acc_to(s, a);
                    LD sc = std::max(amax(r), (LD)1e-30L);
                    // a single law: sums of terms that may cancel, so allow for the cancellation
                    ok = ok && cmp(get(a), r, sc, 300 * eps, std::string("law ") + nm);
                    // added to what is there, not replacing it
                    VA c(n);
                    Acc r2 = r;
                    for (int j = 0; j < n; ++j) {
                        c[j].x = (S)(sc * (j + 1)), c[j].y = (S)(-sc * (j + 2)), c[j].z = (S)(sc * 0.5L * j);
                        r2[j] += V3{(LD)c[j].x, (LD)c[j].y, (LD)c[j].z};
                    }
                    G::add_acc_to(s, c);
                    ok = ok && cmp(get(c), r2, sc, 300 * eps, std::string("accumulating ") + nm);
                    // action and reaction
                    if (std::is_same_v<G, Nw> || std::is_same_v<G, force::Tidal>) {
                        V3 p;
                        Acc g = get(a);
                        for (int j = 0; j < n; ++j) p += b[j].m * g[j];
                        ok = ok && k.check(normp(p) <= 100 * eps * sc, std::string("action-reaction ") + nm, h);
                    }
                    k.states(2);
                    k.transitions(2);
                };
                auto run = [&](auto... t) { (each(t, t.name), ...); };
                run(Sys_tag<Nw>{"Newton"}, Sys_tag<Ex>{typeid(Ex).name()}...);
                if (!ok) return;
                for (int j = 0; j < n; ++j) tot[j] = N[j] + dep[j] + indep[j];
                constexpr bool hd = (false || ... || Law<Ex>::vd), hi = (false || ... || !Law<Ex>::vd);
                if (!k.check(F::ext_vel_dep == hd && F::ext_vel_indep == hi, tn + " flags", h)) return;
                auto dirty = [&] {
                    VA a(n);
                    for (int j = 0; j < n; ++j) a[j].x = a[j].y = a[j].z = (S)7;
                    return a;
                };
                VA a = dirty();
                F::eval_acc(s, a);
                if (!cmp(get(a), tot, amax(tot), 100 * eps, "eval_acc")) return;
                a = dirty();
                s.evaluate_acc(a);
                if (!cmp(get(a), tot, amax(tot), 100 * eps, "evaluate_acc")) return;
                a = dirty();
                F::eval_newtonian_acc(s, a);
                if (!cmp(get(a), N, amax(N), 100 * eps, "eval_newtonian_acc")) return;
                if constexpr (hd) {
                    a = dirty();
                    F::eval_extra_vel_dep_acc(s, a);
                    if (!cmp(get(a), dep, amax(dep), 300 * eps, "eval_extra_vel_dep_acc")) return;
                }
                if constexpr (hi) {
                    a = dirty();
                    F::eval_extra_vel_indep_acc(s, a);
                    if (!cmp(get(a), indep, amax(indep), 100 * eps, "eval_extra_vel_indep_acc")) return;
                }
                if constexpr (hd || hi) {
                    a = dirty();
                    F::eval_extra_acc(s, a);
                    Acc e(n);
                    for (int j = 0; j < n; ++j) e[j] = dep[j] + indep[j];
                    if (!cmp(get(a), e, std::max(amax(dep), amax(indep)), 300 * eps, "eval_extra_acc")) return;
                }
                k.states(3 + hd + hi);
                k.outcome(mc::Hasher()((double)tot[0].x)((double)tot[n - 1].y).h);
                k.sample(h);
            }};
}

// disks: drag on every particle against its motion relative to the disk around particle 0
static LD interp_mid(std::vector<double> const& y, size_t i) { return ((LD)y[i] + (LD)y[i + 1]) / 2; }
template <typename Sys> mc::Suite alpha_suite(std::string tn, int n) {
    return {tn + fmt(" AlphaDisk n=%d", n), "4 radii x 9 relative speeds (Mach 0.05..20, both branches and the bridge) x 3 heights x 3 force modes x 2 masses", [](bool) { return (uint64_t)4 * 9 * 3 * 3 * 2; },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                mc::Dec d(i);
                static const LD RR[] = {50, 500, 2000, 1.0e4L}, MA[] = {0.05L, 0.099L, 0.101L, 0.4L, 0.86L, 1.0L, 1.136L, 2, 20}, ZZ[] = {0, 0.5L, -1};
                LD R = d.pick(RR), mach = d.pick(MA), zf = d.pick(ZZ);
                int mode = (int)d(3) - 1;
                LD m1 = d(2) ? 1 : 30, M = 1e6L;
                LD Q = force::AlphaDisk::Q, al = force::AlphaDisk::alpha, la = force::AlphaDisk::lambda;
                force::AlphaDisk::force = mode;
                LD Om = sqrtl(M / (R * R * R)), Md = la * 0.22L * (M / 1e7L) / (2 * ref::pi), H = cbrtl(Q / 2 / al * Md / M / Om) * R, cs = Om * H;
                std::vector<typename Sys::Particle> v;
                Bodies b(n);
                b[0].m = M, b[0].R = 0.1L, b[0].x = {3, -2, 1}, b[0].v = {0.5L, 1, -0.25L};
                for (int j = 1; j < n; ++j) {
                    LD ph = 0.7L * j, vd = sqrtl(M / R);
                    b[j].m = m1 * j, b[j].R = 0.005L * j;
                    b[j].x = b[0].x + V3{R * cosl(ph), R * sinl(ph), zf * H};
                    V3 u{0.6L, -0.64L, 0.48L};
                    b[j].v = b[0].v + V3{-vd * sinl(ph), vd * cosl(ph), 0} + (mach * cs) * u;
                }
                for (auto& q : b) {
                    auto r = [](V3& a) { a = {(LD)(double)a.x, (LD)(double)a.y, (LD)(double)a.z}; };
                    r(q.x), r(q.v), q.R = (double)q.R;
                    v.push_back(mk<typename Sys::Particle>(q));
                }
                Sys s((S)0, v);
                typename Sys::VectorArray a(n);
                calc::array_set_zero(a);
                force::AlphaDisk::add_acc_to(s, a);
                LD eps = expl(-2);
                auto sub = [](LD m) { return (0.5L * logl((1 + m) / (1 - m)) - m) / (m * m); };
                auto sup = [](LD m) { return (0.5L * logl(1 - 1 / (m * m)) + 3) / (m * m); };
                std::string h = fmt("R %Lg mach %Lg z/H %Lg mode %d", R, mach, zf, mode);
                V3 back;
                for (int j = 1; j < n; ++j) {
                    V3 dx = b[j].x - b[0].x, dv = b[j].v - b[0].v;
                    LD rc = hypotl(dx.x, dx.y), vd = sqrtl(M / rc);
                    V3 w = dv - V3{-vd * dx.y / rc, vd * dx.x / rc, 0};
                    LD wa = normp(w);
                    LD omj = sqrtl(M / (rc * rc * rc)), Hj = cbrtl(Q / 2 / al * Md / M / omj) * rc, c = omj * Hj, ma = wa / c;
                    LD rho = M / (2 * Q * ref::pi * rc * rc * rc) * expl(-dx.z * dx.z / (2 * Hj * Hj)) * 1000;
                    V3 g = v3(a[j]);
                    LD f = -dotp(g, w) / wa * b[j].m;
                    if (!k.check(normp(g + (f / (b[j].m * wa)) * w) <= 1e-9L * normp(g), "disk drag is antiparallel to the relative velocity", h)) return;
                    back += (f / wa) * w;
                    LD df = 4 * ref::pi * b[j].m * b[j].m / (c * c) * rho, aero = 4 * ref::pi * b[j].R * b[j].R * rho * wa * wa;
                    bool bridge = ma > 1 - eps && ma < 1 + eps;
                    LD I = bridge ? 0 : ma > 1 ? sup(ma) : ma < 0.1L ? ma / 3 : sub(ma);
                    if (bridge) {
                        LD lo = 0.5L * sub(1 - eps), hi = 2 * std::max(sub(1 - eps), sup(1 + eps));
                        LD x = mode == -1 ? 0 : (f - (mode == 0 ? aero : 0)) / df;
                        if (!k.check(mode == -1 || (x > lo && x < hi), "transonic drag between its neighbours", h)) return;
                        if (mode != -1) continue;
                    }
                    LD e = mode == 1 ? I * df : mode == -1 ? aero : I * df + aero;
                    if (!k.check(fabsl(f - e) <= 1e-6L * e, "disk drag magnitude", h + fmt(" %.10Lg expected %.10Lg", f, e))) return;
                }
                if (!k.check(normp(v3(a[0]) - (1 / M) * back) <= 1e-9L * normp(back) / M, "disk drag reaction on the centre", h)) return;
                k.states(n), k.transitions();
                k.outcome(mc::Hasher()((double)(LD)v3(a[1]).x).h);
                k.sample(h);
            }};
}
template <typename Sys> mc::Suite capture_suite(std::string tn, int n) {
    return {tn + fmt(" DiskCaptureStar n=%d", n), "4 radii x 6 relative velocities x 3 heights", [](bool) { return (uint64_t)4 * 6 * 3; },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                mc::Dec d(i);
                static const LD RR[] = {50, 500, 2000, 1.0e4L}, VR[] = {-3, -0.9L, -0.01L, 0.02L, 0.7L, 4}, ZZ[] = {0, 0.5L, -1};
                LD R = d.pick(RR), vr = d.pick(VR), zf = d.pick(ZZ), M = 1e6L;
                Bodies b(n);
                std::vector<typename Sys::Particle> v;
                b[0].m = M, b[0].R = 0.1L, b[0].x = {3, -2, 1}, b[0].v = {0.5L, 1, -0.25L};
                auto Hf = [&](LD R) { return cbrtl(0.5L * 0.22L * (M / 1e7L) / (2 * ref::pi) / M / sqrtl(M / (R * R * R))) * R; };
                for (int j = 1; j < n; ++j) {
                    LD ph = 0.7L * j, vd = sqrtl(M / R);
                    b[j].m = 2 * j, b[j].R = 0.005L * j;
                    b[j].x = b[0].x + V3{R * cosl(ph), R * sinl(ph), zf * Hf(R)};
                    b[j].v = b[0].v + V3{-vd * sinl(ph), vd * cosl(ph), 0} + (vr * vd) * V3{0.6L, -0.64L, 0.48L};
                }
                for (auto& q : b) {
                    auto r = [](V3& a) { a = {(LD)(double)a.x, (LD)(double)a.y, (LD)(double)a.z}; };
                    r(q.x), r(q.v), q.R = (double)q.R;
                    v.push_back(mk<typename Sys::Particle>(q));
                }
                Sys s((S)0, v);
                typename Sys::VectorArray a(n);
                calc::array_set_zero(a);
                force::DiskCaptureStar::add_acc_to(s, a);
                std::string h = fmt("R %Lg vr %Lg z/H %Lg", R, vr, zf);
                V3 back;
                for (int j = 1; j < n; ++j) {
                    V3 dx = b[j].x - b[0].x, dv = b[j].v - b[0].v;
                    LD rc = hypotl(dx.x, dx.y), vd = sqrtl(M / rc);
                    V3 w = dv - V3{-vd * dx.y / rc, vd * dx.x / rc, 0};
                    LD rho = M / (2 * ref::pi * rc * rc * rc) * expl(-dx.z * dx.z / (2 * Hf(rc) * Hf(rc)));
                    LD f = ref::pi * b[j].R * b[j].R * rho * normp(w);
                    V3 e = (-f / b[j].m) * w;
                    back += f * w;
                    if (!k.check(normp(v3(a[j]) - e) <= 1e-6L * normp(e), "capture drag", h)) return;
                }
                if (!k.check(normp(v3(a[0]) - (1 / M) * back) <= 1e-6L * normp(back) / M, "capture drag reaction on the centre", h)) return;
                k.states(n), k.transitions();
                k.outcome(mc::Hasher()((double)v3(a[1]).x).h);
                k.sample(h);
            }};
}
// the tabulated disk: the middle of every table cell and both ends, for several relative velocities
template <typename Sys> mc::Suite magneto_suite(std::string tn) {
    return {tn + " MagnetoDisk", "middle of every radial table cell and beyond both ends x 6 relative speeds, 2 orbiting particles", [](bool) { return (uint64_t)(force::_mag_disk_lgr_cgs.size() + 1) * 6; },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                mc::Dec d(i);
                using namespace force;
                size_t N = _mag_disk_lgr_cgs.size(), cell = d(N + 1);
                static const LD VR[] = {1e-3L, 0.05L, 0.3L, 1, 3, 1000};
                LD vr = d.pick(VR), M = 1e5L;
                LD lgr, lgrho, lgH, vc;
                if (cell < N - 1) lgr = interp_mid(_mag_disk_lgr_cgs, cell), lgrho = interp_mid(_mag_disk_lgrho_cgs, cell), lgH = interp_mid(_mag_disk_lgH_cgs, cell), vc = interp_mid(_mag_disk_v_cgs, cell);
                else {
                    size_t e = cell == N - 1 ? 0 : N - 1;
                    lgr = _mag_disk_lgr_cgs[e] + (e ? 0.3L : -0.3L), lgrho = _mag_disk_lgrho_cgs[e], lgH = _mag_disk_lgH_cgs[e], vc = _mag_disk_v_cgs[e];
                }
                LD R = powl(10, lgr) * (LD)unit::cm, rho = powl(10, lgrho) / 5.893333333333333e-07L, H = powl(10, lgH) / 1.5e13L, vd = vc * 3.357318203286629e-07L;
                LD cs = sqrtl(M / (R * R * R)) * H;
                int n = 3;
                Bodies b(n);
                std::vector<typename Sys::Particle> v;
                b[0].m = M, b[0].R = 0.01L;
                for (int j = 1; j < n; ++j) {
                    LD ph = 0.4L + j;
                    b[j].m = 2 * j, b[j].R = 0.005L * j;
                    b[j].x = b[0].x + V3{R * cosl(ph), R * sinl(ph), 0};
                    b[j].v = b[0].v + V3{-vd * sinl(ph), vd * cosl(ph), 0} + (vr * cs) * V3{0.6L, -0.64L, 0.48L};
                }
                for (auto& q : b) {
                    auto r = [](V3& a) { a = {(LD)(double)a.x, (LD)(double)a.y, (LD)(double)a.z}; };
                    r(q.x), r(q.v), q.R = (double)q.R;
                    v.push_back(mk<typename Sys::Particle>(q));
                }
                Sys s((S)0, v);
                typename Sys::VectorArray a(n);
                calc::array_set_zero(a);
                MagnetoDisk::add_acc_to(s, a);
                std::string h = fmt("cell %zu vr/cs %Lg", cell, vr);
                V3 back;
                for (int j = 1; j < n; ++j) {
                    V3 w = b[j].v - b[0].v - V3{-vd * sinl(0.4L + j), vd * cosl(0.4L + j), 0}, g = v3(a[j]);
                    LD wa = normp(w), f = -dotp(g, w) / wa * b[j].m;
                    back += b[j].m * g;
                    if (!k.check(normp(g + (f / (b[j].m * wa)) * w) <= 1e-3L * normp(g), "tabulated disk: drag antiparallel to the relative velocity", h)) return;
                    // gaseous dynamical friction is bracketed by the table, the aerodynamic part is exact
                    LD ma = wa / cs, lg = log10l(ma), aero = 4 * ref::pi * b[j].R * b[j].R * rho * wa * wa, df = 4 * ref::pi * b[j].m * b[j].m / (cs * cs) * rho, lo, hi;
                    size_t T = _GDF_lgM.size();
                    if (lg < _GDF_lgM[0]) lo = hi = ma / 3;
                    else if (lg >= _GDF_lgM[T - 1]) lo = hi = 0;
                    else {
                        size_t c = 0;
                        while (c + 2 < T && _GDF_lgM[c + 1] <= lg) ++c;
                        lo = std::min(_GDF_I[c], _GDF_I[c + 1]), hi = std::max(_GDF_I[c], _GDF_I[c + 1]);
                    }
                    if (!k.check(f >= (lo * df + aero) * 0.97L && f <= (hi * df + aero) * 1.03L, "tabulated disk: drag magnitude", h + fmt(" f %.8Lg in [%.8Lg,%.8Lg]", f, lo * df + aero, hi * df + aero))) return;
                }
                if (!k.check(normp(v3(a[0]) + (1 / M) * back) <= 1e-9L * normp(back) / M, "tabulated disk: reaction on the centre", h)) return;
                k.states(n), k.transitions();
                k.outcome(mc::Hasher()((double)v3(a[1]).x).h);
                k.sample(h);
            }};
}
template <typename T> using Pp = particles::PointParticles<Types<T>>;
template <typename T> using Tp = particles::TideParticles<Types<T>>;
template <typename T> using Dp = particles::DragParticles<Types<T>>;
template <typename T> using Zp = particles::SizeParticles<Types<T>>;
template <typename P, typename... Ex> void reps(std::vector<mc::Suite>& s, std::string nm, int nmax) {
    using F = force::Interactions<Nw, Ex...>;
    for (int n : {2, 3, 4, 5, 6, 12, 17, 33, 70}) {
        if (n > nmax && (n < 8 || nmax < 5)) continue;
        int l = n == 6 ? 90 : 0, o = n == 6 ? 240 : 0;
        s.push_back(suite<system::SimpleSystem<P, F>, Ex...>("Simple " + nm, n, 0, 0));
        s.push_back(suite<system::ChainSystem<P, F>, Ex...>("Chain " + nm, n, l, o));
#if GROUP % 2 == 0
        s.push_back(suite<system::RegularizedSystem<P, F, ReguType::TTL>, Ex...>("Regu " + nm, n, 0, 0));
        s.push_back(suite<system::ARchainSystem<P, F, ReguType::LogH>, Ex...>("ARchain " + nm, n, l, o));
#endif
    }
}
// one law over the whole range of separations, speeds, mass ratios and radii, every particle against its own magnitude
template <typename Sys, typename G> mc::Suite range_suite(std::string tn) {
    constexpr bool tide = std::is_same_v<G, force::Tidal>;
    return {"range " + tn, "9 separations (1e-9..1e9) x 5 speeds x 5 mass pairs x 3 directions x (2 particles, third particle at 3 distances)" + std::string(tide ? " x 5 radii x 4 sets of tide constants" : ""), [](bool) { return (uint64_t)9 * 5 * 5 * 3 * 4 * (tide ? 20 : 1); },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                mc::Dec d(i);
                static const LD Rs[] = {1e-9L, 1e-6L, 1e-3L, .1L, 1, 30, 1e3L, 1e6L, 1e9L}, Ws[] = {0, 1e-8L, 1e-3L, 1, 500}, Ms[][2] = {{1, 1.5L}, {1e-12L, 1e6L}, {30, 0}, {0, 2}, {1e7L, 3e-6L}}, Qs[] = {.5L, .03L, 1e-3L, 3e-5L, 1e-8L}, F3[] = {0, .1L, 3, 1e4L};
                static const V3 U[][2] = {{{.36L, -.48L, .8L}, {-.6L, .64L, .48L}}, {{0, 0, 1}, {0, 0, -1}}, {{.8L, .6L, 0}, {-.6L, .8L, 0}}};
                LD r = d.pick(Rs), w = d.pick(Ws), f3 = d.pick(F3);
                auto& m = d.pick(Ms);
                auto& u = d.pick(U);
                Bodies b(f3 > 0 ? 3 : 2);
                b[0].m = m[0], b[1].m = m[1];
                b[1].x = r * u[0];
                b[0].v = w * u[1], b[1].v = (-1.75L * w) * u[1] + (.25L * w) * V3{.6L, .8L, 0};
                if (f3 > 0) b[2].m = .25L, b[2].x = (-f3 * r) * V3{.48L, .6L, -.64L}, b[2].v = (.5L * w) * V3{.8L, 0, -.6L};
                if (tide) {
                    LD q = d.pick(Qs);
                    int kk = d(4);
                    for (size_t j = 0; j < b.size(); ++j) b[j].R = q * r * (j + 1) / 2, b[j].k = j == 1 ? (kk & 1 ? .014L : 0) : j == 0 ? (kk != 1 ? .3L : 0) : .1L, b[j].tau = kk == 3 ? 0 : .01L * (j + 1) * (w > 0 ? r / w : 1);
                    if (m[0] == 0 || m[1] == 0) return;
                }
                std::vector<typename Sys::Particle> v;
                for (auto& q : b) {
                    auto rd = [](V3& a) { a = {(LD)(double)a.x, (LD)(double)a.y, (LD)(double)a.z}; };
                    rd(q.x), rd(q.v), q.m = (double)q.m, q.R = (double)q.R, q.k = (double)q.k, q.tau = (double)q.tau;
                    v.push_back(mk<typename Sys::Particle>(q));
                }
                Sys s((S)0, v);
                typename Sys::VectorArray a(b.size());
                calc::array_set_zero(a);
                G::add_acc_to(s, a);
                Acc e(b.size());
                Law<G>::f(b, e);
                std::string h = fmt("r %Lg w %Lg m %Lg,%Lg third %Lg R %Lg,%Lg k %Lg,%Lg", r, w, m[0], m[1], f3, b[0].R, b[1].R, b[0].k, b[1].k);
                for (size_t j = 0; j < b.size(); ++j)
                    if (!k.check(normp(v3(a[j]) - e[j]) <= 1e-10L * normp(e[j]), "range " + tn, h + fmt(": particle %zu (%.12Lg,%.12Lg,%.12Lg) expected (%.12Lg,%.12Lg,%.12Lg)", j, (LD)a[j].x, (LD)a[j].y, (LD)a[j].z, e[j].x, e[j].y, e[j].z))) return;
                k.states(), k.transitions();
                k.outcome(mc::Hasher()((double)e[0].x).h);
                k.sample(h);
            }};
}
template <typename P, typename G> void ranges(std::vector<mc::Suite>& s, std::string nm) {
    using F = force::Interactions<Nw>;
    s.push_back(range_suite<system::SimpleSystem<P, F>, G>(nm + " Simple"));
    s.push_back(range_suite<system::ChainSystem<P, F>, G>(nm + " Chain"));
}
int main(int c, char** v) {
    std::vector<mc::Suite> s;
#if GROUP == 0
    reps<Pp<double>>(s, "Newton", 6);
    reps<Pp<double_k>, force::PN1>(s, "PN1 double_k", 4);
    ranges<Pp<double>, Nw>(s, "Newton");
    ranges<Pp<double>, force::PN1>(s, "PN1");
#elif GROUP == 1
    reps<Pp<double>, force::PN1, force::PN2, force::PN2p5>(s, "PN1+PN2+PN2.5", 6);
    reps<Pp<long double>, force::PN2p5, force::PN1, force::PN2>(s, "PN long double", 4);
    ranges<Pp<double>, force::PN2>(s, "PN2");
    ranges<Pp<double>, force::PN2p5>(s, "PN2.5");
#elif GROUP == 2
    reps<Tp<double>, force::Tidal>(s, "Tidal", 6);
    reps<Tp<double>, force::Tidal, Harm, force::PN1>(s, "Tidal+ext+PN1", 4);
    ranges<Tp<double>, force::Tidal>(s, "Tidal");
#elif GROUP == 3
    reps<Pp<double>, Harm>(s, "ext", 4);
    reps<Pp<double>, Harm, Mag>(s, "ext+vel", 5);
    reps<Pp<double>, Mag, Harm, force::PN2>(s, "vel+ext+PN2", 4);
    reps<Dp<double>, force::StaticGasDrag>(s, "StaticGasDrag", 5);
    reps<Dp<double>, Harm, force::StaticGasDrag>(s, "ext+StaticGasDrag", 4);
#else
    using Fd = force::Interactions<Nw>;
    for (int n : {2, 3}) {
        s.push_back(alpha_suite<system::SimpleSystem<Zp<double>, Fd>>("Simple", n));
        s.push_back(alpha_suite<system::ChainSystem<Tp<double>, Fd>>("Chain", n));
        s.push_back(capture_suite<system::SimpleSystem<Zp<double>, Fd>>("Simple", n));
        s.push_back(capture_suite<system::ARchainSystem<Zp<double>, Fd, ReguType::LogH>>("ARchain", n));
    }
    s.push_back(magneto_suite<system::SimpleSystem<Zp<double>, Fd>>("Simple"));
    s.push_back(magneto_suite<system::ChainSystem<Zp<double>, Fd>>("Chain"));
#endif
    return mc::main(c, v, s);
}
