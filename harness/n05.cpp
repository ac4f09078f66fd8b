// N05: array and coordinate helpers, particle sums, lazy vectors against their definitions
#include <array>
#include <cmath>
#include <iostream>
#include <vector>

#include "spaceHub.hpp"
#include "mc.hpp"
using LD = long double;
using namespace hub;
template <typename T> struct Raw { using type = T; };
template <typename T> struct Raw<Kahan<T>> { using type = T; };
template <typename T> struct Raw<Neumaier<T>> { using type = T; };
template <typename T> struct Raw<Klein<T>> { using type = T; };
template <typename T> static LD ld(T const& x) { return (LD)(typename Raw<T>::type)x; }
template <typename T> constexpr LD eps() { if constexpr (std::is_integral_v<T>) return 0; else return std::numeric_limits<typename Raw<T>::type>::epsilon(); }
template <typename T> static T mk(double x) { return T((typename Raw<T>::type)x); }
static const double AL[] = {0, 1, -3, 1. / 3, 1e10, -1e-10};
static const double SC[] = {1, -2.5, 1. / 7, 0};
struct W3 { LD x[3]; };
// ---- scalar arrays. Seq is the container template
template <typename T> using Std = std::vector<T>;
template <typename T> using Small = typename Types<double>::template Container<T>;
template <typename T> using Tiny = llvm::SmallVector<T, 2>;
template <template <typename> class Seq, typename T> static Seq<T> make(std::vector<double> const& v) {
    Seq<T> r;
    for (double x : v) r.push_back(mk<T>(x));
    return r;
}
template <template <typename> class Seq, typename T> static void scalars(mc::Case& c, double sc, std::vector<int> const& code) {
    using R = typename Raw<T>::type;
    size_t n = code.size();
    std::vector<double> av, bv, cv;
    for (size_t k = 0; k < n; ++k) av.push_back(AL[code[k] % 6]), bv.push_back(AL[code[k] / 6]), cv.push_back(AL[(code[k] * 5 + k) % 6] + .5);
    auto a = make<Seq, T>(av), b = make<Seq, T>(bv), e = make<Seq, T>(cv);
    R s = (R)sc;
    std::string t = mc::fmt("n=%zu scale %g a=(", n, sc);
    for (size_t k = 0; k < n; ++k) t += mc::fmt("%g,", av[k]);
    t += ") b=(";
    for (size_t k = 0; k < n; ++k) t += mc::fmt("%g,", bv[k]);
    t += ")";
    c.sample(t);
    c.states();
    auto A_ = [&](size_t k) { return ld(a[k]); };
    auto B_ = [&](size_t k) { return ld(b[k]); };
    auto E_ = [&](size_t k) { return ld(e[k]); };
    LD S = s, ep = 4 * eps<T>();
    auto expect = [&](const char* what, auto const& got, auto want, auto scale) {
        c.transitions();
        if (!c.check(got.size() == n, what, t + " changed the size")) return;
        for (size_t k = 0; k < n; ++k) {
            LD w = want(k), g = ld(got[k]);
            bool ok = std::isnan(w) ? std::isnan(g) : std::isinf(w) ? g == w : std::fabs(g - w) <= ep * std::max(std::fabs(w), (LD)scale(k)) + std::numeric_limits<R>::denorm_min();
            if (!ok) return c.fail(what, t + mc::fmt(" element %zu is %.20Lg, expected %.20Lg", k, g, w));
        }
    };
    auto none = [](size_t) { return 0.L; };
    auto ab = [&](size_t k) { return std::fabs(A_(k)) + std::fabs(B_(k)); };
    auto dst = [&] { return make<Seq, T>(std::vector<double>(n, 77)); };
#define ON(NAME, CALL, WANT, SCALE) { auto x = dst(); calc::CALL; expect(NAME, x, [&](size_t k) -> LD { return WANT; }, SCALE); }
    ON("array_add of two", array_add(x, a, b), A_(k) + B_(k), ab)
    ON("array_add of three", array_add(x, a, b, e), A_(k) + B_(k) + E_(k), [&](size_t k) { return ab(k) + std::fabs(E_(k)); })
    ON("array_sub", array_sub(x, a, b), A_(k) - B_(k), ab)
    ON("array_mul of two", array_mul(x, a, b), A_(k) * B_(k), none)
    ON("array_mul of three", array_mul(x, a, b, e), A_(k) * B_(k) * E_(k), none)
    ON("array_div", array_div(x, a, e), A_(k) / E_(k), none)
    ON("array_scale", array_scale(x, a, s), A_(k) * S, none)
    if (sc != 0) ON("array_div_scale", array_div_scale(x, a, s), A_(k) / S, none)
    ON("array_scale_add(a,b,c)", array_scale_add(x, a, b, s), (A_(k) + B_(k)) * S, [&](size_t k) { return ab(k) * std::fabs(S); })
    ON("array_scale_add(a,b,c,d)", array_scale_add(x, a, s, b, (R)3), A_(k) * S + B_(k) * 3, [&](size_t k) { return 3 * ab(k) * std::max(std::fabs(S), 1.L); })
    ON("array_scale_sub", array_scale_sub(x, a, b, s), (A_(k) - B_(k)) * S, [&](size_t k) { return ab(k) * std::fabs(S); })
    auto sab = [&](size_t k) { return ab(k) * std::max(std::fabs(S), 1.L); };
    ON("array_advance to another", array_advance(x, a, b, s), A_(k) + B_(k) * S, sab)
    ON("array_retreat to another", array_retreat(x, a, b, s), A_(k) - B_(k) * S, sab)
    // in place
#define INPLACE(NAME, CALL, WANT, SCALE) { auto x = a; calc::CALL; expect(NAME, x, [&](size_t k) -> LD { return WANT; }, SCALE); }
    INPLACE("array_add in place", array_add(x, x, b), A_(k) + B_(k), ab)
    INPLACE("array_add of itself", array_add(x, x, x), 2 * A_(k), ab)
    INPLACE("array_sub in place", array_sub(x, b, x), B_(k) - A_(k), ab)
    INPLACE("array_mul in place", array_mul(x, x, b), A_(k) * B_(k), none)
    INPLACE("array_scale in place", array_scale(x, x, s), A_(k) * S, none)
    INPLACE("array_scale_add in place", array_scale_add(x, x, b, s), (A_(k) + B_(k)) * S, sab)
    INPLACE("array_scale_add in place, second", array_scale_add(x, b, x, s), (A_(k) + B_(k)) * S, sab)
    INPLACE("array_scale_add of four in place", array_scale_add(x, x, s, b, (R)3), A_(k) * S + B_(k) * 3, [&](size_t k) { return 3 * sab(k); })
    INPLACE("array_scale_add of four in place, second", array_scale_add(x, b, s, x, (R)3), B_(k) * S + A_(k) * 3, [&](size_t k) { return 3 * sab(k); })
    INPLACE("array_scale_sub in place", array_scale_sub(x, x, b, s), (A_(k) - B_(k)) * S, sab)
    INPLACE("array_scale_sub in place, second", array_scale_sub(x, b, x, s), (B_(k) - A_(k)) * S, sab)
    INPLACE("array_add in place, second", array_add(x, b, x), A_(k) + B_(k), ab)
    INPLACE("array_add of three in place, last", array_add(x, b, e, x), A_(k) + B_(k) + E_(k), [&](size_t k) { return ab(k) + std::fabs(E_(k)); })
    INPLACE("array_sub in place, first", array_sub(x, x, b), A_(k) - B_(k), ab)
    INPLACE("array_mul in place, last", array_mul(x, b, e, x), A_(k) * B_(k) * E_(k), none)
    INPLACE("array_mul of itself", array_mul(x, x, x), A_(k) * A_(k), none)
    INPLACE("array_div in place", array_div(x, x, e), A_(k) / E_(k), none)
    if (sc != 0) INPLACE("array_div_scale in place", array_div_scale(x, x, s), A_(k) / S, none)
    INPLACE("array_advance to the same", array_advance(x, x, b, s), A_(k) + B_(k) * S, sab)
    INPLACE("array_advance to the increment", array_advance(x, b, x, s), B_(k) + A_(k) * S, sab)
    INPLACE("array_retreat to the same", array_retreat(x, x, b, s), A_(k) - B_(k) * S, sab)
    INPLACE("array_retreat to the increment", array_retreat(x, b, x, s), B_(k) - A_(k) * S, sab)
    INPLACE("array_advance by itself", array_advance(x, x, s), A_(k) + A_(k) * S, sab)
    INPLACE("array_advance", array_advance(x, b), A_(k) + B_(k), ab)
    INPLACE("array_retreat", array_retreat(x, b), A_(k) - B_(k), ab)
    INPLACE("array_advance with step", array_advance(x, b, s), A_(k) + B_(k) * S, sab)
    INPLACE("array_retreat with step", array_retreat(x, b, s), A_(k) - B_(k) * S, sab)
    INPLACE("array_set_zero", array_set_zero(x), 0, none)
    { auto x = a, y = b; calc::set_arrays_zero(x, y); expect("set_arrays_zero", x, none, none); expect("set_arrays_zero", y, none, none); }
    LD sum = 0, as = 0, dotv = 0, ad = 0, dot3 = 0, ad3 = 0;
    for (size_t k = 0; k < n; ++k) sum += A_(k), as += std::fabs(A_(k)), dotv += A_(k) * B_(k), ad += std::fabs(A_(k) * B_(k)), dot3 += A_(k) * B_(k) * E_(k), ad3 += std::fabs(A_(k) * B_(k) * E_(k));
    LD g1 = ld(calc::array_sum(a)), g2 = ld(calc::array_dot(a, b)), g3 = ld(calc::array_dot(a, b, e));
    c.transitions(3);
    c.check(std::fabs(g1 - sum) <= n * ep * as, "array_sum", t + mc::fmt(" = %.20Lg, expected %.20Lg", g1, sum));
    c.check(std::fabs(g2 - dotv) <= n * ep * ad, "array_dot of two", t + mc::fmt(" = %.20Lg, expected %.20Lg", g2, dotv));
    c.check(std::fabs(g3 - dot3) <= 2 * n * ep * ad3, "array_dot of three", t + mc::fmt(" = %.20Lg, expected %.20Lg", g3, dot3));
    if (n == 3) {
        R p = (R)av[0], q = (R)av[1], r = (R)av[2];
        c.check(std::fabs((LD)calc::add(p, q, r) - ((LD)p + q + r)) <= ep * as && std::fabs((LD)calc::mul(p, q, r) - (LD)p * q * r) <= ep * std::fabs((LD)p * q * r), "add/mul", t);
        c.check(calc::any(p != 0, q != 0, r != 0) == (p != 0 || q != 0 || r != 0) && calc::all(p != 0, q != 0, r != 0) == (p != 0 && q != 0 && r != 0), "any/all", t);
    }
    c.outcome(mc::Hasher()((double)g2)((double)g3).h);
}
template <template <typename> class Seq, typename T> static void shorts(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    double sc = d.pick(SC);
    scalars<Seq, T>(c, sc, mc::seq(d.v, 36));
}
// one length, all elements (7 k + shift) mod 36: every element differs from its neighbours, so that a wrong index shows
template <template <typename> class Seq, typename T> static void longs(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    double sc = d.pick(SC);
    int shift = d(36);
    static const int BIG[] = {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1024, 1025};
    std::vector<int> code(d.v < 15 ? BIG[d.v] : d.v - 15);
    for (size_t k = 0; k < code.size(); ++k) code[k] = (7 * k + shift) % 36;
    scalars<Seq, T>(c, sc, code);
}
// ---- compensated arrays keep their low-order part through the array helpers
template <typename T> static void compensated(mc::Case& c, uint64_t i) {
    static const double IN[] = {1e-17, -1e-17, 3e-17, 1., -1., 1e3, .1};
    mc::Dec d(i);
    int how = d(4);
    static const double ST[] = {1., 1e6, -3.};
    double start = d.pick(ST);
    double in[3] = {d.pick(IN), d.pick(IN), d.pick(IN)};
    std::string t = mc::fmt("start %g increments %g %g %g (%s)", start, in[0], in[1], in[2], how == 0 ? "advance" : how == 1 ? "retreat" : how == 2 ? "advance with step" : "retreat with step");
    c.sample(t);
    c.states();
    std::vector<T> x{T(start), T(start)};
    std::vector<Vec3<T>> v{Vec3<T>(T(start), T(start), T(-start))};
    LD want = start, tot = std::fabs(start);
    for (int rep = 0; rep < 200; ++rep)
        for (double w : in) {
            std::vector<double> inc{w, w};
            std::vector<Vec3<double>> vi{Vec3<double>(w, w / 2, -w)};
            switch (how) {
                case 0: calc::array_advance(x, inc), calc::array_advance(v, vi); want += w; break;
                case 1: calc::array_retreat(x, inc), calc::array_retreat(v, vi); want -= w; break;
                case 2: calc::array_advance(x, inc, 2.), calc::array_advance(v, vi, 2.); want += 2 * (LD)w; break;
                default: calc::array_retreat(x, inc, 2.), calc::array_retreat(v, vi, 2.); want -= 2 * (LD)w;
            }
            tot += 2 * std::fabs(w);
            c.transitions(2);
        }
    LD tol = 3 * eps<T>() * tot;  // Kahan's bound: 2 eps times the sum of the magnitudes
    auto ok = [&](T const& g, LD w, const char* what) { c.check(std::fabs(ld(g) - w) <= tol, what, t + mc::fmt(": %.20Lg after 600 operations, expected %.20Lg", ld(g), w)); };
    ok(x[0], want, "compensated array"), ok(x[1], want, "compensated array");
    ok(v[0].x, want, "compensated coordinates"), ok(v[0].y, (want - start) / 2 + start, "compensated coordinates"), ok(v[0].z, -want, "compensated coordinates");
    // saving, restoring, copying and clearing the low-order part
    std::vector<double> se(2);
    calc::array_save_err(se, x);
    std::vector<Vec3<double>> ve(1);
    calc::array_save_err(ve, v);
    auto y = x, z = x;
    auto p = v, q = v;
    c.check(se[0] == (double)x[0].err && se[1] == (double)x[1].err && ve[0].x == v[0].x.err && ve[0].y == v[0].y.err && ve[0].z == v[0].z.err, "array_save_err", t);
    calc::array_set_err_zero(y), calc::array_set_err_zero(p);
    c.check(y[0].err == 0 && y[1].err == 0 && y[0].real == x[0].real && y[1].real == x[1].real && p[0].x.err == 0 && p[0].y.err == 0 && p[0].z.err == 0 && p[0].x.real == v[0].x.real && p[0].z.real == v[0].z.real, "array_set_err_zero", t);
    calc::array_load_err(y, se), calc::array_load_err(p, ve);
    auto same = [&] { return y[0].err == x[0].err && y[1].err == x[1].err && y[0].real == x[0].real && p[0].x.err == v[0].x.err && p[0].y.err == v[0].y.err && p[0].z.err == v[0].z.err && p[0].y.real == v[0].y.real; };
    c.check(same(), "array_load_err", t);
    calc::array_set_err_zero(y), calc::array_set_err_zero(p);
    calc::array_copy_err(y, x), calc::array_copy_err(p, v);
    c.check(same(), "array_copy_err", t);
    c.transitions(8);
    c.outcome(mc::Hasher()((double)want)(se[0]).h);
}
// plain elements have no low-order part: the helpers leave them alone
static void plain_err(mc::Case& c, uint64_t i) {
    double w = AL[i];
    std::vector<Vec3<double>> v{Vec3<double>(w, 1, 2)}, u{Vec3<double>(7, 8, 9)};
    c.states(), c.transitions(4);
    c.sample(mc::fmt("%g", w));
    calc::array_load_err(v, u), calc::array_save_err(u, v), calc::array_copy_err(v, u), calc::array_set_err_zero(v);
    c.check(v[0].x == w && v[0].z == 2 && u[0].x == 7, "plain arrays", mc::fmt("changed (%g)", w));
    c.outcome(i);
}
// ---- coordinates
static const double CO[][3] = {{0, 0, 0}, {1, -2, 3}, {1e6, .1, -1e-6}, {-1. / 3, 0, 2}};
template <typename VT> static void coords(mc::Case& c, uint64_t i) {
    using Sc = typename Raw<typename VT::value_type>::type;
    mc::Dec d(i);
    double s = d.pick(SC);
    auto code = mc::seq(d.v, 16);
    size_t n = code.size();
    typename Types<double>::template Container<VT> p, q;
    std::vector<double> m;
    std::string t = mc::fmt("n=%zu scale %g coordinates", n, s);
    for (size_t k = 0; k < n; ++k) {
        auto &a = CO[code[k] % 4], &b = CO[code[k] / 4];
        p.push_back(VT((Sc)a[0], (Sc)a[1], (Sc)a[2])), q.push_back(VT((Sc)b[0], (Sc)b[1], (Sc)b[2]));
        m.push_back(k == 0 ? 2 : k == 1 ? .3 : k == 2 ? 1e4 : 1);
        t += mc::fmt(" %d/%d", code[k] % 4, code[k] / 4);
    }
    c.sample(t);
    c.states();
    LD ep = 8 * std::numeric_limits<Sc>::epsilon();
    auto P = [&](size_t k, int j) { return ld(j == 0 ? p[k].x : j == 1 ? p[k].y : p[k].z); };
    auto Q = [&](size_t k, int j) { return ld(j == 0 ? q[k].x : j == 1 ? q[k].y : q[k].z); };
    auto close = [&](LD g, LD w, LD scale, const char* what) { c.transitions(); c.check(std::fabs(g - w) <= ep * std::max(scale, std::fabs(w)), what, t + mc::fmt(": %.20Lg, expected %.20Lg", g, w)); };
    // flattening and reading back, each with something before
    std::vector<Sc> y{(Sc)9}, ys{(Sc)9, (Sc)8};
    add_coords_to(y, p);
    add_scaled_coords_to(ys, p, (Sc)s);
    c.check(y.size() == 1 + 3 * n && y[0] == 9 && ys.size() == 2 + 3 * n && ys[0] == 9 && ys[1] == 8, "length of added coordinates", t);
    if (!c.failed_.empty()) return;
    for (size_t k = 0; k < n; ++k)
        for (int j = 0; j < 3; ++j) close(y[1 + 3 * k + j], P(k, j), 0, "add_coords_to"), close(ys[2 + 3 * k + j], P(k, j) * s, 0, "add_scaled_coords_to");
    typename Types<double>::template Container<VT> r;
    r.resize(i % 4);
    load_to_coords(y.begin() + 1, y.end(), r);
    c.check(r.size() == n, "load_to_coords size", t);
    if (!c.failed_.empty()) return;
    for (size_t k = 0; k < n; ++k) c.check(ld(r[k].x) == P(k, 0) && ld(r[k].y) == P(k, 1) && ld(r[k].z) == P(k, 2), "load_to_coords", t);
    advance_coords_to(y.begin() + 1, q);
    advance_scaled_coords_to(ys.begin() + 2, q, (Sc)3);
    for (size_t k = 0; k < n; ++k)
        for (int j = 0; j < 3; ++j) {
            close(y[1 + 3 * k + j], P(k, j) + Q(k, j), std::fabs(P(k, j)) + std::fabs(Q(k, j)), "advance_coords_to");
            close(ys[2 + 3 * k + j], P(k, j) * s + Q(k, j) * 3, std::fabs(P(k, j) * s) + std::fabs(3 * Q(k, j)), "advance_scaled_coords_to");
        }
    c.check(y[0] == 9 && ys[0] == 9 && ys[1] == 8, "elements before the coordinates", t);
    // products
    if constexpr (std::is_floating_point_v<typename VT::value_type>) {
        std::vector<Sc> dots(n, 5);
        calc::coord_dot(dots, p, q);
        std::vector<Sc> mm(m.begin(), m.end());
        LD all = 0, mall = 0, s1 = 0, s2 = 0, com[3] = {0, 0, 0}, mt = 0, cs = 0;
        for (size_t k = 0; k < n; ++k) {
            LD w = 0, a = 0;
            for (int j = 0; j < 3; ++j) w += P(k, j) * Q(k, j), a += std::fabs(P(k, j) * Q(k, j)), com[j] += (LD)mm[k] * P(k, j), cs += (LD)mm[k] * std::fabs(P(k, j));
            close(dots[k], w, a, "coord_dot");
            all += w, s1 += a, mall += w * mm[k], s2 += a * mm[k], mt += mm[k];
        }
        close(calc::coord_contract_to_scalar(p, q), all, s1, "coord_contract_to_scalar");
        close(calc::coord_contract_to_scalar(mm, p, q), mall, s2, "weighted coord_contract_to_scalar");
        if (n > 0) {
            auto cm = calc::calc_com(mm, p);
            close(cm.x, com[0] / mt, cs / mt, "calc_com"), close(cm.y, com[1] / mt, cs / mt, "calc_com"), close(cm.z, com[2] / mt, cs / mt, "calc_com");
            auto mv = p;
            calc::move_to_com(mm, mv);
            for (size_t k = 0; k < n; ++k) {
                close(mv[k].x, P(k, 0) - com[0] / mt, cs / mt + std::fabs(P(k, 0)), "move_to_com"), close(mv[k].y, P(k, 1) - com[1] / mt, cs / mt + std::fabs(P(k, 1)), "move_to_com"), close(mv[k].z, P(k, 2) - com[2] / mt, cs / mt + std::fabs(P(k, 2)), "move_to_com");
            }
            // every choice of one particle without mass, and of one particle with mass
            for (size_t z = 0; z < 2 * n + 1; ++z) {
                std::vector<Sc> fm(mm);
                if (z >= 1 && z <= n) fm[z - 1] = 0;
                if (z > n)
                    for (size_t k = 0; k < n; ++k)
                        if (k != z - n - 1) fm[k] = 0;
                LD ff = std::numeric_limits<LD>::infinity();
                bool any = false;
                for (size_t k = 0; k < n; ++k)
                    for (size_t l = 0; l < k; ++l) {
                        LD r2 = 0;
                        if (fm[k] + fm[l] == 0) continue;
                        any = true;
                        for (int j = 0; j < 3; ++j) r2 += (P(k, j) - P(l, j)) * (P(k, j) - P(l, j));
                        ff = std::min(ff, 3.14159265358979323846264338327950288L / 2 * std::pow(r2, .75L) / std::sqrt(2 * (LD)consts::G * ((LD)fm[k] + fm[l])));
                    }
                if (any) {
                    LD g = calc::calc_fall_free_time(fm, p);
                    c.check(std::fabs(g - ff) <= 1e-15L * ff + ep * ff, "calc_fall_free_time", t + mc::fmt(" masses %zu: %.20Lg, expected %.20Lg", z, g, ff));
                }
            }
        }
        // vector arrays through the array helpers
        auto x = p;
        calc::array_add(x, p, q);
        for (size_t k = 0; k < n; ++k) close(x[k].x, P(k, 0) + Q(k, 0), std::fabs(P(k, 0)) + std::fabs(Q(k, 0)), "array_add of vectors"), close(x[k].z, P(k, 2) + Q(k, 2), std::fabs(P(k, 2)) + std::fabs(Q(k, 2)), "array_add of vectors");
        calc::array_sub(x, p, q);
        for (size_t k = 0; k < n; ++k) close(x[k].y, P(k, 1) - Q(k, 1), std::fabs(P(k, 1)) + std::fabs(Q(k, 1)), "array_sub of vectors");
        calc::array_scale(x, q, (Sc)s);
        for (size_t k = 0; k < n; ++k) close(x[k].y, Q(k, 1) * s, 0, "array_scale of vectors"), close(x[k].z, Q(k, 2) * s, 0, "array_scale of vectors");
        calc::array_advance(x, p, q, (Sc)s);
        for (size_t k = 0; k < n; ++k) close(x[k].x, P(k, 0) + Q(k, 0) * s, std::fabs(P(k, 0)) + std::fabs(Q(k, 0) * s), "array_advance of vectors");
        calc::array_set_zero(x);
        for (size_t k = 0; k < n; ++k) c.check(x[k].x == 0 && x[k].y == 0 && x[k].z == 0, "array_set_zero of vectors", t);
    }
    c.outcome(mc::Hasher()(i).h);
}
// ---- sums over particles
static void particle_sums(mc::Case& c, uint64_t i) {
    using PS = particles::PointParticles<Types<double>>;
    using Pt = typename PS::Particle;
    mc::Dec d(i);
    int sub = 1 + d(15);
    std::vector<size_t> idx;
    for (int k = 0; k < 4; ++k)
        if (sub >> k & 1) idx.push_back(k);
    if (d(2)) std::reverse(idx.begin(), idx.end());
    static const double M[] = {1, 20, 3e-6, 0};
    std::vector<Pt> p;
    LD m[4], x[4][3], v[4][3];
    for (int k = 0; k < 4; ++k) {
        m[k] = M[(k + d(4)) % 4];
        for (int j = 0; j < 3; ++j) x[k][j] = CO[(k + 1) % 4][j] + .1 * j, v[k][j] = CO[(k + 2) % 4][(j + 1) % 3] - .2 * k;
        p.emplace_back((double)m[k], (double)x[k][0], (double)x[k][1], (double)x[k][2], (double)v[k][0], (double)v[k][1], (double)v[k][2]);
        for (int j = 0; j < 3; ++j) x[k][j] = (double)x[k][j], v[k][j] = (double)v[k][j];
    }
    PS ps(0, p);
    std::string t = mc::fmt("subset %d masses %Lg %Lg %Lg %Lg", sub, m[0], m[1], m[2], m[3]);
    c.sample(t);
    c.states();
    auto cr = [](LD* a, LD* b, int j) { return a[(j + 1) % 3] * b[(j + 2) % 3] - a[(j + 2) % 3] * b[(j + 1) % 3]; };
    auto near = [&](auto const& g, LD* w, LD scale, const char* what) {
        c.transitions();
        LD gg[3] = {g.x, g.y, g.z};
        for (int j = 0; j < 3; ++j)
            if (!c.check(std::fabs(gg[j] - w[j]) <= 1e-14L * scale, what, t + mc::fmt(" component %d: %.20Lg, expected %.20Lg", j, gg[j], w[j]))) return;
    };
    LD L[3] = {0, 0, 0}, Lt[3] = {0, 0, 0}, sc = 0, st = 0, mt = 0, cx[3] = {0, 0, 0}, cv[3] = {0, 0, 0};
    auto add = [&](int k, LD* to, LD& s) {
        for (int j = 0; j < 3; ++j) to[j] += m[k] * cr(x[k], v[k], j);
        LD a = 0, b = 0;
        for (int j = 0; j < 3; ++j) a += std::fabs(x[k][j]), b += std::fabs(v[k][j]);
        s += m[k] * a * b;
    };
    for (int k = 0; k < 4; ++k) add(k, Lt, st);
    for (auto k : idx) {
        add(k, L, sc);
        mt += m[k];
        for (int j = 0; j < 3; ++j) cx[j] += m[k] * x[k][j], cv[j] += m[k] * v[k][j];
    }
    near(calc::calc_total_angular_momentum(ps), Lt, st, "calc_total_angular_momentum");
    near(calc::calc_angular_momentum(ps, idx), L, sc, "calc_angular_momentum");
    if (mt > 0) {
        LD Li[3] = {0, 0, 0}, si = 0;
        for (auto k : idx) {
            LD dx[3], dv[3], a = 0, b = 0;
            for (int j = 0; j < 3; ++j) dx[j] = x[k][j] - cx[j] / mt, dv[j] = v[k][j] - cv[j] / mt, a += std::fabs(x[k][j]) + std::fabs(cx[j] / mt), b += std::fabs(v[k][j]) + std::fabs(cv[j] / mt);
            for (int j = 0; j < 3; ++j) Li[j] += m[k] * cr(dx, dv, j);
            si += m[k] * a * b;
        }
        near(calc::calc_isolated_angular_momentum(ps, idx), Li, si, "calc_isolated_angular_momentum");
    }
    LD T = 0, U = 0, us = 0;
    for (int k = 0; k < 4; ++k) {
        T += m[k] * (v[k][0] * v[k][0] + v[k][1] * v[k][1] + v[k][2] * v[k][2]) / 2;
        for (int l = 0; l < k; ++l) {
            LD r = 0;
            for (int j = 0; j < 3; ++j) r += (x[k][j] - x[l][j]) * (x[k][j] - x[l][j]);
            U -= (LD)consts::G * m[k] * m[l] / std::sqrt(r), us -= U;
        }
    }
    LD gT = calc::calc_kinetic_energy(ps), gU = calc::calc_potential_energy(ps), gE = calc::calc_total_energy(ps);
    c.check(std::fabs(gT - T) <= 1e-14L * T, "calc_kinetic_energy", t);
    c.check(std::fabs(gU - U) <= 1e-14L * std::fabs(U), "calc_potential_energy", t);
    c.check(std::fabs(gE - T - U) <= 1e-14L * (T - U), "calc_total_energy", t);
    if (T + U != 0) for (double f : {1., .5, -2.}) {
        LD E0 = (T + U) * f, want = std::fabs((T + U - E0) / E0), got = calc::calc_energy_error(ps, (double)E0);
        c.check(std::fabs(got - want) <= 1e-13L * (T - U) / std::fabs(E0), "calc_energy_error", t + mc::fmt(" E0=%.17Lg: %.17Lg, expected %.17Lg", E0, got, want));
    }
    c.check(calc::calc_step_scale(ps) == 1, "calc_step_scale", t);
    c.transitions(7);
    c.outcome(mc::Hasher()((double)gE).h);
}
// ---- lazily evaluated vectors
template <typename T> static void lazy_vectors(mc::Case& c, uint64_t i) {
    using L = lazy::LazyVec3<T>;
    mc::Dec d(i);
    auto &pa = CO[d(4)], &pb = CO[1 + d(3)];
    static const double LS[] = {2., -.3, 7.};
    T s = (T)d.pick(LS);
    L a((T)pa[0], (T)pa[1], (T)pa[2]), b((T)pb[0], (T)pb[1] + (T).5, (T)pb[2]);
    LD A_[3] = {a.x, a.y, a.z}, B_[3] = {b.x, b.y, b.z}, S = s;
    std::string t = mc::fmt("a=(%Lg,%Lg,%Lg) b=(%Lg,%Lg,%Lg) s=%Lg", A_[0], A_[1], A_[2], B_[0], B_[1], B_[2], S);
    c.sample(t);
    c.states();
    LD ep = 8 * std::numeric_limits<T>::epsilon();
    auto vec = [&](L const& g, auto want, const char* what) {
        c.transitions();
        LD gg[3] = {g.x, g.y, g.z};
        for (int j = 0; j < 3; ++j) {
            LD u = want(j), scale = std::fabs(u) + std::fabs(A_[j]) + std::fabs(B_[j]) + std::fabs(S * A_[j]) + std::fabs(S * B_[j]);
            if (!c.check(std::isnan(u) ? std::isnan(gg[j]) : std::isinf(u) ? gg[j] == u : std::fabs(gg[j] - u) <= ep * scale, what, t + mc::fmt(" component %d: %.18Lg, expected %.18Lg", j, gg[j], u))) return;
        }
    };
#define LZ(NAME, EXPR, WANT) { L g; g = EXPR; vec(g, [&](int j) -> LD { (void)j; return WANT; }, NAME " assigned"); L h = EXPR; vec(h, [&](int j) -> LD { (void)j; return WANT; }, NAME); }
    LZ("a+b", a + b, A_[j] + B_[j])
    LZ("a-b", a - b, A_[j] - B_[j])
    LZ("a*b", a * b, A_[j] * B_[j])
    LZ("a/b", a / b, (LD)((T)A_[j] / (T)B_[j]))
    LZ("a*s", a * s, A_[j] * S)
    LZ("s*a", s * a, A_[j] * S)
    LZ("a/s", a / s, A_[j] / S)
    LZ("s-a", s - a, S - A_[j])
    LZ("-a", -a, -A_[j])
    LZ("a*s+b", a * s + b, A_[j] * S + B_[j])
    LZ("(a-b)*s-a/s", (a - b) * s - a / s, (A_[j] - B_[j]) * S - A_[j] / S)
    { L g = a; g = g + b; vec(g, [&](int j) { return A_[j] + B_[j]; }, "g=g+b"); g = b - g; vec(g, [&](int j) { return B_[j] - (A_[j] + B_[j]); }, "g=b-g"); }
    { L g = a; g += b * s; vec(g, [&](int j) { return A_[j] + B_[j] * S; }, "+= expression"); g -= b * s; vec(g, [&](int j) { return (A_[j] + B_[j] * S) - B_[j] * S; }, "-= expression"); }
    { L g = a; g *= b + b; vec(g, [&](int j) { return A_[j] * 2 * B_[j]; }, "*= expression"); }
    { L g = a; g /= b + b; vec(g, [&](int j) { return (LD)((T)A_[j] / (2 * (T)B_[j])); }, "/= expression"); }
    { L g(s); vec(g, [&](int) { return S; }, "from scalar"); g = a; L h(g); vec(h, [&](int j) { return A_[j]; }, "copy"); L m(std::move(h)); vec(m, [&](int j) { return A_[j]; }, "move"); }
    auto num = [&](LD g, LD u, LD scale, const char* what) { c.transitions(); c.check(std::fabs(g - u) <= ep * std::max(scale, std::fabs(u)), what, t + mc::fmt(": %.18Lg, expected %.18Lg", g, u)); };
    LD dt = 0, ds = 0, na = 0, nd = 0, sd = 0, mx = 0;
    for (int j = 0; j < 3; ++j) dt += A_[j] * B_[j], ds += std::fabs(A_[j] * B_[j]), na += A_[j] * A_[j], nd += (A_[j] - B_[j]) * (A_[j] - B_[j]), sd += std::fabs(A_[j]) + std::fabs(B_[j]), mx = std::max(mx, std::fabs(A_[j]));
    num(dot(a, b), dt, ds, "dot"), num(norm(a), std::sqrt(na), 0, "norm"), num(norm2(a), na, 0, "norm2"), num(distance(a, b), std::sqrt(nd), sd, "distance"), num(max_abs(a), mx, 0, "max_abs");
    if (na > 0) num(re_norm(a), 1 / std::sqrt(na), 0, "re_norm");
    auto ck = [&](L const& g, auto want, LD scale, const char* what) {
        LD gg[3] = {g.x, g.y, g.z};
        for (int j = 0; j < 3; ++j) num(gg[j], want(j), scale, what);
    };
    ck(cross(a, b), [&](int j) { return A_[(j + 1) % 3] * B_[(j + 2) % 3] - A_[(j + 2) % 3] * B_[(j + 1) % 3]; }, sd * sd, "cross");
    ck(vec_abs(a), [&](int j) { return std::fabs(A_[j]); }, 0, "vec_abs");
    ck(vec_max(a, b), [&](int j) { return std::max(A_[j], B_[j]); }, 0, "vec_max");
    ck(vec_min(a, b), [&](int j) { return std::min(A_[j], B_[j]); }, 0, "vec_min");
    std::ostringstream os;
    os.precision(21);
    os << a;
    std::string o = os.str();
    for (auto& ch : o) if (ch == ',') ch = ' ';
    std::istringstream is(o);
    L back;
    is >> back;
    c.check(back.x == a.x && back.y == a.y && back.z == a.z, "stream", t + " written as " + o);
    c.outcome(mc::Hasher()(i).h);
}
// ---- container helpers
static void containers(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int n = d(5), m = d(5), r = d(7);
    std::vector<int> a, b;
    llvm::SmallVector<double, 3> e;
    std::string t = mc::fmt("%d %d %d", n, m, r);
    c.sample(t);
    c.states();
    for (int k = 0; k < n; ++k) a.push_back(k + 1);
    for (int k = 0; k < m; ++k) b.push_back(-k - 1), e.push_back(k * .5);
    auto a0 = a;
    hub::emplace_back(a, 100, 200, 300);
    hub::push_back(b, 7);
    c.check((int)a.size() == n + 3 && a[n] == 100 && a[n + 1] == 200 && a[n + 2] == 300 && std::equal(a0.begin(), a0.end(), a.begin()), "emplace_back", t);
    c.check((int)b.size() == m + 1 && b[m] == 7, "push_back", t);
    reserve_all(20, a, b, e);
    c.check(a.capacity() >= 20 && b.capacity() >= 20 && e.capacity() >= 20 && (int)a.size() == n + 3 && (int)e.size() == m, "reserve_all", t);
    resize_all(r, a, b, e);
    c.check((int)a.size() == r && (int)b.size() == r && (int)e.size() == r, "resize_all", t);
    for (int k = 0; k < std::min(r, n); ++k) c.check(a[k] == k + 1, "resize_all keeps", t);
    for (int k = 0; k < std::min(r, m); ++k) c.check(e[k] == k * .5, "resize_all keeps", t);
    shrink_to_fit_all(a, b);
    c.check((int)a.size() == r && (int)b.size() == r, "shrink_to_fit_all", t);
    clear_all(a, b, e);
    c.check(a.empty() && b.empty() && e.empty(), "clear_all", t);
    c.transitions(6);
    c.outcome(i);
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    auto sc = [&](const char* n, auto f, auto g) {
        s.push_back({std::string("scalar arrays of ") + n, "all pairs of arrays of length 0..3 (thorough 0..4) over 6 values x 4 scale factors; every array helper incl. in place", [](bool th) { return 4 * mc::nseq(36, th ? 4 : 3); }, f, 15});
        s.push_back({std::string("long arrays of ") + n, "lengths 0..40 (thorough 0..200) and 15 lengths from 63 to 1025 x 36 value patterns x 4 scale factors", [](bool th) { return (uint64_t)4 * 36 * (th ? 216 : 56); }, g, 15});
    };
    sc("double in std::vector", shorts<Std, double>, longs<Std, double>);
    sc("double in the library's container", shorts<Small, double>, longs<Small, double>);
    sc("long double in a two-element container", shorts<Tiny, LD>, longs<Tiny, LD>);
    sc("float", shorts<Std, float>, longs<Std, float>);
    sc("Kahan<double>", shorts<Small, double_k>, longs<Small, double_k>);
    sc("Neumaier<double>", shorts<Std, double_p>, longs<Std, double_p>);
    s.push_back({"compensated Kahan", "3 starting values x all triples of 7 increments repeated 200 times x advance/retreat with and without step", [](bool) { return (uint64_t)4 * 3 * 343; }, compensated<double_k>, 15});
    s.push_back({"compensated Neumaier", "the same", [](bool) { return (uint64_t)4 * 3 * 343; }, compensated<double_p>, 15});
    s.push_back({"plain low-order parts", "6 values", [](bool) { return (uint64_t)6; }, plain_err, 15});
    auto co = [&](const char* n, auto f) { s.push_back({std::string("coordinates ") + n, "all pairs of coordinate lists of length 0..3 (thorough 0..4) over 4 points x 4 scale factors", [](bool th) { return 4 * mc::nseq(16, th ? 4 : 3); }, f, 15}); };
    co("double", coords<Vec3<double>>);
    co("long double", coords<Vec3<LD>>);
    co("Kahan", coords<Vec3<double_k>>);
    s.push_back({"particle sums", "4 particles, all non-empty subsets, both orders, 4^4 mass assignments", [](bool) { return (uint64_t)15 * 2 * 256; }, particle_sums, 15});
    s.push_back({"lazy vectors double", "4 x 3 vectors x 3 scalars, every operator, nested expressions, self assignment", [](bool) { return (uint64_t)36; }, lazy_vectors<double>, 15});
    s.push_back({"lazy vectors float", "the same", [](bool) { return (uint64_t)36; }, lazy_vectors<float>, 15});
    s.push_back({"containers", "all lengths 0..4 of two containers x new length 0..6", [](bool) { return (uint64_t)175; }, containers, 15});
    return mc::main(argc, argv, s);
}
