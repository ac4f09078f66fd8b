// N03: Vec3 operators, products and norms, operation sequences with aliasing
#include <cmath>
#include <iostream>
#include <vector>

#include "spaceHub.hpp"
#include "mc.hpp"
using LD = long double;
template <typename T> static const char* tn() { return std::is_same_v<T, int> ? "int" : std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, LD> ? "long double" : "compensated"; }
template <typename T> struct Raw { using type = T; };
template <typename T> struct Raw<hub::Kahan<T>> { using type = T; };
template <typename T> struct Raw<hub::Neumaier<T>> { using type = T; };
template <typename T> struct Raw<hub::Klein<T>> { using type = T; };
template <typename T> static LD ld(T const& x) { return (LD)(typename Raw<T>::type)x; }
struct V { LD x[3]; };
template <typename T> static V ref(hub::Vec3<T> const& v) { return {{ld(v.x), ld(v.y), ld(v.z)}}; }
template <typename T> static LD eps() { if constexpr (std::is_same_v<T, int>) return 0; else return std::numeric_limits<typename Raw<T>::type>::epsilon(); }
template <typename T> static std::vector<hub::Vec3<T>> vecs() {
    using R = typename Raw<T>::type;
    auto mk = [](double a, double b, double c) { return hub::Vec3<T>(T((R)a), T((R)b), T((R)c)); };
    if constexpr (std::is_same_v<T, int>) return {mk(1, 2, 3), mk(-4, 5, -6), mk(7, 7, 7), mk(100, -1, 2), mk(2, 3, -5), mk(-1, -2, -3)};
    else return {mk(1, 2, 3), mk(-.5, .25, 8), mk(1. / 3, -2. / 3, 1e3), mk(1e-6, -3, 1e6), mk(0, 0, -1.5), mk(0, 2.7, 0), mk(-1. / 3, 0, 0), mk(3, -4, 12), mk(1 + 1e-7, 1, 1 - 1e-7)};
}
template <typename T> static std::vector<T> scals() {
    if constexpr (std::is_same_v<T, int>) return {1, 2, -3, 7};
    else return {T(1), T(-2.5), T((typename Raw<T>::type)(1. / 3)), T(1e4), T(-1e-3)};
}
template <typename T> static std::string show(hub::Vec3<T> const& v) { return mc::fmt("(%.9Lg,%.9Lg,%.9Lg)", ld(v.x), ld(v.y), ld(v.z)); }
// componentwise result r of x op y with rounding (scale: size of the operands of a sum)
static bool near(LD got, LD want, LD e, LD scale = 0) { return std::fabs(got - want) <= 2 * e * std::max(std::fabs(want), scale); }
static LD op(int o, LD a, LD b, bool integer) {
    LD r = o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b;
    return integer ? std::trunc(r) : r;
}
static const char OPS[] = "+-*/";
template <typename T> struct Is { mc::Case& c; std::string t; LD e; bool integer;
    template <typename W> void vec(W const& got, std::function<LD(int)> want, std::function<LD(int)> scale, const char* what) {
        LD g[3] = {ld(got.x), ld(got.y), ld(got.z)};
        c.transitions();
        for (int k = 0; k < 3; ++k)
            if (!near(g[k], want(k), e, scale(k))) return c.fail(what, mc::fmt("Vec3<%s> %s %s component %d is %.21Lg instead of %.21Lg", tn<T>(), what, t.c_str(), k, g[k], want(k)));
    }
};
template <typename T, typename U> static void binary(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto av = vecs<T>();
    auto bv = vecs<U>();
    auto a = d.pick(av);
    auto b = d.pick(bv);
    auto s = d.pick(scals<T>());
    V A_ = ref(a), B_ = ref(b);
    LD S = ld(s);
    constexpr bool in = std::is_same_v<T, int>;
    Is<T> is{c, show(a) + " " + show(b) + mc::fmt(" %.9Lg", S), std::max(eps<T>(), eps<U>()), in};
    c.sample(is.t);
    c.states();
    for (int o = 0; o < 4; ++o) {
        auto sc = [&](LD x, LD y) { return o < 2 ? std::fabs(x) + std::fabs(y) : 0; };
        std::string w = std::string("vector ") + OPS[o] + " vector", ws = std::string("vector ") + OPS[o] + " scalar", sw = std::string("scalar ") + OPS[o] + " vector", wa = w + " assigned", wsa = ws + " assigned";
        bool zb = o == 3 && (B_.x[0] == 0 || B_.x[1] == 0 || B_.x[2] == 0), za = o == 3 && (A_.x[0] == 0 || A_.x[1] == 0 || A_.x[2] == 0);
        if (!zb) {
            auto want = [&](int k) { return op(o, A_.x[k], B_.x[k], in); };
            auto scale = [&](int k) { return sc(A_.x[k], B_.x[k]); };
            auto r = a;
            const auto& ca = a;
            const auto& cb = b;
            is.vec(o == 0 ? ca + cb : o == 1 ? ca - cb : o == 2 ? ca * cb : ca / cb, want, scale, w.c_str());
            const hub::Vec3<T>* p = o == 0 ? &(r += cb) : o == 1 ? &(r -= cb) : o == 2 ? &(r *= cb) : &(r /= cb);
            is.vec(r, want, scale, wa.c_str());
            c.check(p == &r, "reference", wa + " does not return the vector itself");
        }
        auto want = [&](int k) { return op(o, A_.x[k], S, in); };
        auto scale = [&](int k) { return sc(A_.x[k], S); };
        auto r = a;
        const auto& ca = a;
        const auto& cs = s;
        is.vec(o == 0 ? ca + cs : o == 1 ? ca - cs : o == 2 ? ca * cs : ca / cs, want, scale, ws.c_str());
        const hub::Vec3<T>* p = o == 0 ? &(r += cs) : o == 1 ? &(r -= cs) : o == 2 ? &(r *= cs) : &(r /= cs);
        is.vec(r, want, scale, wsa.c_str());
        c.check(p == &r, "reference", wsa + " does not return the vector itself");
        if (!za) is.vec(o == 0 ? cs + ca : o == 1 ? cs - ca : o == 2 ? cs * ca : cs / ca, [&](int k) { return op(o, S, A_.x[k], in); }, scale, sw.c_str());
    }
    is.vec(-a, [&](int k) { return -A_.x[k]; }, [](int) { return 0; }, "negative");
    is.vec(a.abs(), [&](int k) { return std::fabs(A_.x[k]); }, [](int) { return 0; }, "abs");
    is.vec(hub::Vec3<T>(s), [&](int) { return S; }, [](int) { return 0; }, "construct from scalar");
    { auto r = a; r = s; is.vec(r, [&](int) { return S; }, [](int) { return 0; }, "assign scalar"); }
    { hub::Vec3<T> r(b); is.vec(r, [&](int k) { return in ? std::trunc(B_.x[k]) : B_.x[k]; }, [](int) { return 0; }, "construct from other type"); }
    // products and norms
    auto num = [&](LD got, LD want, LD scale, const char* what) {
        c.transitions();
        if (!(std::fabs(got - want) <= 8 * is.e * std::max(scale, std::fabs(want)))) c.fail(what, mc::fmt("Vec3<%s> %s of %s is %.21Lg instead of %.21Lg", tn<T>(), what, is.t.c_str(), got, want));
    };
    auto dt = [&](V const& x, V const& y) { return x.x[0] * y.x[0] + x.x[1] * y.x[1] + x.x[2] * y.x[2]; };
    LD da = 0;
    for (int k = 0; k < 3; ++k) da += std::fabs(A_.x[k] * B_.x[k]);
    num(ld(hub::dot(a, b)), dt(A_, B_), da, "dot");
    num(ld(hub::norm2(a)), dt(A_, A_), 0, "norm2"), num(ld(a.norm2()), dt(A_, A_), 0, "norm2()");
    auto cr = [&](int k) { int p = (k + 1) % 3, q = (k + 2) % 3; return A_.x[p] * B_.x[q] - A_.x[q] * B_.x[p]; };
    is.vec(hub::cross(a, b), cr, [&](int k) { int p = (k + 1) % 3, q = (k + 2) % 3; return 2 * std::fabs(A_.x[p] * B_.x[q]) + 2 * std::fabs(A_.x[q] * B_.x[p]); }, "cross");
    if constexpr (!in) {
        LD n = std::sqrt(dt(A_, A_));
        num(ld(hub::norm(a)), n, 0, "norm"), num(ld(a.norm()), n, 0, "norm()"), num(ld(hub::re_norm(a)), 1 / n, 0, "re_norm"), num(ld(a.re_norm()), 1 / n, 0, "re_norm()");
        LD d2 = 0, sc = 0;
        for (int k = 0; k < 3; ++k) d2 += (A_.x[k] - B_.x[k]) * (A_.x[k] - B_.x[k]), sc = std::max({sc, std::fabs(A_.x[k]), std::fabs(B_.x[k])});
        num(ld(hub::distance(a, b)), std::sqrt(d2), sc, "distance");
    }
    LD mx = std::max({A_.x[0], A_.x[1], A_.x[2]}), ma = std::max({std::fabs(A_.x[0]), std::fabs(A_.x[1]), std::fabs(A_.x[2])});
    num(ld(a.max_component()), mx, 0, "max_component");
    if constexpr (!in) num(ld(hub::max_abs(a)), ma, 0, "max_abs"), is.vec(hub::vec_abs(a), [&](int k) { return std::fabs(A_.x[k]); }, [](int) { return 0; }, "vec_abs");
    if constexpr (std::is_same_v<T, U>) {
        is.vec(hub::vec_max(a, b), [&](int k) { return std::max(A_.x[k], B_.x[k]); }, [](int) { return 0; }, "vec_max");
        is.vec(hub::vec_min(a, b), [&](int k) { return std::min(A_.x[k], B_.x[k]); }, [](int) { return 0; }, "vec_min");
    }
    // output and input
    if constexpr (!in) {
        std::stringstream ss;
        ss.precision(25);
        ss << a;
        std::string txt = ss.str();
        for (auto& ch : txt) if (ch == ',') ch = ' ';
        std::istringstream is2(txt);
        hub::Vec3<T> r;
        is2 >> r;
        is.vec(r, [&](int k) { return A_.x[k]; }, [](int) { return 0; }, "output and input");
    }
    c.outcome(mc::Hasher()((double)ld(hub::dot(a, b)))((double)S).h);
}
// sequences of compound assignments between two vectors and a scalar, including aliased operands
template <typename T> static void sequence(mc::Case& c, uint64_t i) {
    const int K = 19;
    auto sq = mc::seq(i, K);
    auto vv = vecs<T>();
    using R = typename Raw<T>::type;
    constexpr bool comp = !std::is_same_v<T, R>;
    hub::Vec3<T> v[2] = {vv[0], vv[1]};
    V r[2] = {ref(v[0]), ref(v[1])}, er[2] = {};
    LD e = eps<T>();
    std::string t;
    auto upd = [&](int j, int o, V const& y, V const& ye) {
        for (int k = 0; k < 3; ++k) {
            LD a = r[j].x[k], b = y.x[k], z = op(o, a, b, false), dz;
            LD ea = er[j].x[k], eb = ye.x[k];
            dz = o < 2 ? ea + eb + 2 * e * (std::fabs(a) + std::fabs(b)) : o == 2 ? ea * std::fabs(b) + eb * std::fabs(a) : (ea + eb * std::fabs(z)) / std::fabs(b);
            r[j].x[k] = z, er[j].x[k] = 2 * dz + 2 * e * std::fabs(z);
        }
    };
    for (int o : sq) {
        c.transitions();
        if (o < 16) {
            int w = o % 4, k = o / 4;  // operand: the other vector, itself, an own component, -2.5
            V y, ye{};
            auto& a = v[0];
            if (k == 0) {
                y = r[1], ye = er[1];
                w == 0 ? a += v[1] : w == 1 ? a -= v[1] : w == 2 ? a *= v[1] : a /= v[1];
            } else if (k == 1) {
                y = r[0], ye = er[0];
                w == 0 ? a += a : w == 1 ? a -= a : w == 2 ? a *= a : a /= a;
            } else if (k == 2) {
                y = {{r[0].x[1], r[0].x[1], r[0].x[1]}}, ye = {{er[0].x[1], er[0].x[1], er[0].x[1]}};
                w == 0 ? a += a.y : w == 1 ? a -= a.y : w == 2 ? a *= a.y : a /= a.y;
            } else {
                y = {{-2.5, -2.5, -2.5}};
                w == 0 ? a += T(-2.5) : w == 1 ? a -= T(-2.5) : w == 2 ? a *= T(-2.5) : a /= T(-2.5);
            }
            upd(0, w, y, ye);
            t += std::string(" a") + OPS[w] + "=" + (k == 0 ? "b" : k == 1 ? "a" : k == 2 ? "a.y" : "-2.5");
        } else if (o == 16) { std::swap(v[0], v[1]), std::swap(r[0], r[1]), std::swap(er[0], er[1]); t += " swap"; }
        else if (o == 17) { v[1] = v[0], r[1] = r[0], er[1] = er[0]; t += " b=a"; }
        else { auto w = v[0] - v[1]; V q = r[1], qe = er[1]; v[0] = w; upd(0, 1, q, qe); t += " a=a-b"; }
        for (int j = 0; j < 2; ++j) {
            LD g[3] = {ld(v[j].x), ld(v[j].y), ld(v[j].z)};
            for (int k = 0; k < 3; ++k) {
                if (!std::isfinite(r[j].x[k]) || !std::isfinite(er[j].x[k]) || !(std::fabs(r[j].x[k]) < 1e30L) || er[j].x[k] > .1L * std::fabs(r[j].x[k])) return c.states();  // no digits left
                if (!(std::fabs(g[k] - r[j].x[k]) <= 4 * er[j].x[k])) return c.fail("sequence", mc::fmt("Vec3<%s>%s: component %d of %c is %.21Lg instead of %.21Lg", tn<T>(), t.c_str(), k, "ab"[j], g[k], r[j].x[k]));
            }
        }
    }
    (void)comp;
    c.states();
    c.sample(t);
    c.outcome(mc::Hasher()((double)ld(v[0].x))((double)ld(v[0].y)).h);
}
template <typename T, typename U = T> static void add(std::vector<mc::Suite>& s) {
    std::string n = std::string(tn<T>()) + (sizeof(T) != sizeof(typename Raw<T>::type) ? mc::fmt("%zu", sizeof(T)) : "");
    uint64_t k = vecs<T>().size() * vecs<U>().size() * scals<T>().size();
    s.push_back({"operators " + n + (std::is_same_v<T, U> ? "" : std::string(" with ") + tn<U>()), "all pairs of vectors of the alphabet x scalars: every operator, product, norm and conversion", [k](bool) { return k; }, binary<T, U>, 15});
    if constexpr (std::is_same_v<T, U> && !std::is_same_v<T, int>)
        s.push_back({"sequences " + n, "all sequences of up to 4 (thorough: 6) of 19 compound assignments, with other, same and own-component operands", [](bool t) { return mc::nseq(19, t ? 6 : 4); }, sequence<T>, 15});
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    add<int>(s), add<float>(s), add<double>(s), add<LD>(s), add<hub::double_k>(s), add<hub::double_p>(s), add<hub::double_e>(s), add<hub::long_double_k>(s);
    add<double, float>(s), add<LD, double>(s), add<double, int>(s), add<hub::double_k, double>(s), add<hub::long_double_k, double>(s);
    return mc::main(argc, argv, s);
}
