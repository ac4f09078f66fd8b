// N02: math helpers and root finders
#include "mc.hpp"
#include "type-class.hpp"
#include "kahan-number.hpp"
#include "math.hpp"
using LD = long double;
template <typename T> static const char* tn() { return std::is_same_v<T, int> ? "int" : std::is_same_v<T, size_t> ? "size_t" : sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double"; }
template <typename T> static std::vector<T> values() {
    if constexpr (std::is_integral_v<T>) {
        std::vector<T> v{0, 1, 2, 7, 100, std::numeric_limits<T>::max()};
        if constexpr (std::is_signed_v<T>) v.insert(v.end(), {-1, -2, -100, -std::numeric_limits<T>::max()});
        return v;
    } else {
        using L = std::numeric_limits<T>;
        return {0, -T(0), 1, -1, T(1) + L::epsilon(), T(1) - L::epsilon() / 2, -1 - L::epsilon(), 2.5, -7, L::min(), -L::min(), L::denorm_min(), L::max(), -L::max(), L::infinity(), -L::infinity(), T(1) / 3, 1e10, -1e-10};
    }
}
template <typename T> static void helpers(mc::Case& c, uint64_t i) {
    auto v = values<T>();
    mc::Dec d(i);
    T x = d.pick(v), y = d.pick(v), z = d.pick(v);
    namespace m = hub::math;
    std::string t = mc::fmt("%s %.21Lg %.21Lg %.21Lg", tn<T>(), (LD)x, (LD)y, (LD)z);
    c.states(), c.transitions(12);
    c.sample(t);
    c.check(m::min(x, y) == std::min(x, y), "min", "min of " + t);
    c.check(m::max(x, y) == std::max(x, y), "max", "max of " + t);
    c.check(m::max(m::max(x, y), z) == std::max(x, std::max(y, z)) && m::min(x, m::min(y, z)) == std::min(std::min(x, y), z), "nested min/max", t);
    if constexpr (std::is_signed_v<T>) c.check(m::abs(x) == (x < 0 ? -x : x), "abs", "abs of " + t);
    T lo = std::min(x, z), hi = std::max(x, z);
    c.check(m::in_range(lo, y, hi) == (y < lo ? lo : y > hi ? hi : y), "in_range", "in_range of " + t);
    c.check(m::step(x) == (x > 0 ? 1 : 0), "step", "step of " + t);
    if constexpr (std::is_signed_v<T>) if (x != 0) c.check(m::sign(x) == (x > 0 ? 1 : -1), "sign", "sign of " + t);
    if constexpr (!std::is_integral_v<T>) {
        if (std::isfinite(x) && std::isfinite(y)) {
            LD df = std::fabs((LD)x - (LD)y);
            if (!(std::fabs(df - std::numeric_limits<T>::epsilon()) < 1e-3L * std::numeric_limits<T>::epsilon())) c.check(m::iseq(x, y) == (df < std::numeric_limits<T>::epsilon()), "iseq", "iseq of " + t);
        }
        if (x >= std::numeric_limits<T>::min() && std::isfinite(x)) {
            LD r = 1 / std::sqrt((LD)x), e = std::fabs(m::karmack_sqrt_inv(x) - r) / r;
            c.check(e < 4e-7L && (sizeof(T) == 4 || e < 1e-15L), "karmack_sqrt_inv", t);
        }
        c.check(m::epsilon_v<T> == std::numeric_limits<T>::epsilon() && m::epsilon<hub::Kahan<T>>::value == std::numeric_limits<T>::epsilon(), "epsilon", t);
        c.check(m::max_value_v<T> == std::numeric_limits<T>::max() && m::max_value<hub::Kahan<T>>::value == std::numeric_limits<T>::max(), "max_value", t);
        c.check(m::big_value_v<T> < std::numeric_limits<T>::max() && m::big_value_v<T> > T(1e-3) * std::numeric_limits<T>::max(), "big_value", t);
    }
    c.outcome(mc::Hasher()((double)m::max(x, y))((double)m::in_range(lo, y, hi)).h);
}
template <typename T> struct Fn { const char* name; std::function<T(T, T)> f; };
// functions of (x, root) that change sign at the root
template <typename T> static std::vector<Fn<T>> fns() {
    return {{"x-r", [](T x, T r) { return x - r; }},
            {"r-x", [](T x, T r) { return r - x; }},
            {"(x-r)^3", [](T x, T r) { return (x - r) * (x - r) * (x - r); }},
            {"atan(x-r)", [](T x, T r) { return std::atan(x - r); }},
            {"step", [](T x, T r) { return T(x < r ? -1 : x > r ? 1 : 0); }},
            {"1e10*(x-r)", [](T x, T r) { return T(1e10) * (x - r); }},
            {"-1e-8*(x-r)", [](T x, T r) { return T(-1e-8) * (x - r); }},
            {"(x-r)*(1+(x-r)^2)", [](T x, T r) { return (x - r) * (1 + (x - r) * (x - r)); }},
            {"sinh(x-r)/100", [](T x, T r) { return std::sinh(std::max(T(-80), std::min(T(80), x - r))) / 100; }}};
}
template <typename T> static std::vector<T> roots() { return {0, 1, -1, T(1) / 3, -T(2.7), T(1e-5), -T(1e-9), T(1e6) / 7, -T(1e8)}; }
template <typename T> static std::vector<T> below() { return {0, T(1e-3), 1, 3, 1000, T(2e9)}; }
template <typename T> static void bisect(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    auto fs = fns<T>();
    auto& f = d.pick(fs);
    auto rs = roots<T>();
    T r = d.pick(rs);
    auto b = below<T>();
    T lo = r - d.pick(b), hi = r + d.pick(b);
    if (lo == hi) return;
    if (d(2)) std::swap(lo, hi);
    LD near = f.f(r + r * std::numeric_limits<T>::epsilon(), r);
    if (r != 0 && near * near < std::numeric_limits<T>::min()) return;  // the product of two values vanishes
    auto g = [&](T x) -> T { c.transitions(); return f.f(x, r); };
    std::string t = mc::fmt("%s: root %.9Lg of %s in [%.9Lg, %.9Lg]", tn<T>(), (LD)r, f.name, (LD)lo, (LD)hi);
    c.sample(t);
    c.states();
    T x = hub::math::root_bisection(g, lo, hi);
    LD lim = 4 * std::numeric_limits<T>::epsilon() * std::fabs((LD)r);
    if (r == 0) lim = sizeof(T) == 4 ? 1e-6L : 1e-50L;  // the products of values that decide the side vanish below
    c.check(std::fabs((LD)x - r) <= lim, "root_bisection", t + mc::fmt(" gives %.21Lg", (LD)x));
    c.outcome(mc::Hasher()((double)x).h);
}
// arguments of two different types: the result is the value std::max / std::min give on the common type
template <typename A, typename B> static void mixed(mc::Case& c, uint64_t i) {
    auto va = values<A>();
    auto vb = values<B>();
    mc::Dec d(i);
    A x = d.pick(va);
    B y = d.pick(vb);
    using C = std::common_type_t<A, B>;
    std::string t = mc::fmt("%s %.21Lg and %s %.21Lg", tn<A>(), (LD)x, tn<B>(), (LD)y);
    c.states(), c.transitions(4);
    c.sample(t);
    if (std::is_integral_v<A> != std::is_integral_v<B> && sizeof(A) != sizeof(B) && ((LD)(C)x != (LD)x || (LD)(C)y != (LD)y)) return;  // the comparison itself rounds
    if (std::is_integral_v<A> && std::is_integral_v<B> && (x < A(0) || y < B(0))) return;  // signed against unsigned
    namespace m = hub::math;
    LD hi = std::max<C>((C)x, (C)y), lo = std::min<C>((C)x, (C)y);
    c.check((LD)m::max(x, y) == hi && (LD)m::max(y, x) == hi, "max of two types", "max of " + t + mc::fmt(" is %.21Lg, %.21Lg", (LD)m::max(x, y), (LD)m::max(y, x)));
    c.check((LD)m::min(x, y) == lo && (LD)m::min(y, x) == lo, "min of two types", "min of " + t + mc::fmt(" is %.21Lg, %.21Lg", (LD)m::min(x, y), (LD)m::min(y, x)));
    c.outcome(mc::Hasher()((double)m::max(x, y))((double)m::min(x, y)).h);
}
template <typename A, typename B> static void add_mixed(std::vector<mc::Suite>& s) {
    uint64_t k = values<A>().size() * values<B>().size();
    s.push_back({std::string("mixed ") + tn<A>() + " " + tn<B>(), "all pairs of values of two types", [k](bool) { return k; }, mixed<A, B>, 15});
}
// functions with several roots, and Kepler's equations: a sign change within the working precision of the result
template <typename T> static void kepler(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    static const double E[] = {0, 1e-8, .1, .5, .9, .99, .999999}, H[] = {1.0001, 1.1, 2, 10}, M[] = {-3.1, -1, -1e-3, 0, 1e-7, .3, 1.5, 3};
    int k = d(4);
    T e = d(7), m = (T)d.pick(M), lo = -4, hi = 4;
    std::function<T(T)> f;
    std::string t;
    if (k == 0) { e = (T)E[(int)e]; f = [=](T x) { return x - e * std::sin(x) - m; }; t = "elliptic Kepler equation"; }
    else if (k == 1) { e = (T)H[(int)e % 4]; f = [=](T x) { return e * std::sinh(x) - x - m; }; t = "hyperbolic Kepler equation"; lo = -20, hi = 20; }
    else if (k == 2) { f = [=](T x) { return x + x * x * x / 3 - m; }; t = "parabolic Kepler equation"; }
    else { f = [=](T x) { return std::sin(3 * x) - m / 4; }; t = "sin(3x)"; T s = (int)e * T(2.0943951023931953); lo = s - T(.5), hi = s + T(.5); if (f(lo) * f(hi) > 0) return; }
    t = mc::fmt("%s: %s e=%.9Lg M=%.9Lg", tn<T>(), t.c_str(), (LD)e, (LD)m);
    c.sample(t);
    c.states();
    T x = hub::math::root_bisection([&](T y) -> T { c.transitions(); return f(y); }, lo, hi);
    T w = 8 * std::numeric_limits<T>::epsilon() * std::max<T>(std::fabs(x), T(1e-20));
    T noise = 16 * std::numeric_limits<T>::epsilon() * (std::fabs(x) * (2 + e) + std::fabs(m));
    c.check(x >= lo && x <= hi && (f(x - w) * f(x + w) <= 0 || (k < 3 && std::fabs(f(x)) <= noise)), "root_bisection", t + mc::fmt(" gives %.21Lg", (LD)x));
    // Newton's iteration with x - f/f' is a fixed point iteration
    if (k < 3) {
        auto n = [&](T y) -> T { c.transitions(); return f(y) / (k == 0 ? 1 - e * std::cos(y) : k == 1 ? e * std::cosh(y) - 1 : 1 + y * y); };
        // only where it converges by itself
        T y = 0;
        bool conv = false;
        for (int j = 0; j < 60 && !conv; ++j) { T z = y - n(y); conv = std::fabs(z - y) <= std::numeric_limits<T>::epsilon() * std::max<T>(1, std::fabs(z)); y = z; if (!std::isfinite(y)) break; }
        if (conv) {
            T z = hub::math::root_newton(n);
            c.check(std::fabs(z - y) <= 40 * std::numeric_limits<T>::epsilon() * std::max<T>(1, std::fabs(y)) / (k == 0 ? 1 - std::min<T>(e, T(.99)) : T(.01)), "root_newton", t + mc::fmt(" root_newton gives %.21Lg instead of %.21Lg", (LD)z, (LD)y));
        }
    }
    c.outcome(mc::Hasher()((double)x).h);
}
template <typename T> static void add(std::vector<mc::Suite>& s) {
    std::string n = tn<T>();
    uint64_t k = values<T>().size();
    s.push_back({"helpers " + n, "all triples over the value alphabet (zeros, denormals, neighbours of 1, extremes, infinities)", [k](bool) { return k * k * k; }, helpers<T>, 15});
    if constexpr (!std::is_integral_v<T>) {
        s.push_back({"bisection " + n, "9 functions x 9 roots x 6 distances of the lower x 6 of the upper end (0: root at the end point) x interval given forwards or backwards", [](bool) { return (uint64_t)9 * 9 * 6 * 6 * 2; }, bisect<T>, 15});
        s.push_back({"equations " + n, "Kepler's equations of the three orbit types x eccentricities x mean anomalies, and a function with many roots", [](bool) { return (uint64_t)4 * 7 * 8; }, kepler<T>, 15});
    }
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    add<int>(s), add<size_t>(s), add<float>(s), add<double>(s), add<LD>(s);
    add_mixed<int, float>(s), add_mixed<int, double>(s), add_mixed<int, LD>(s), add_mixed<float, double>(s), add_mixed<float, LD>(s), add_mixed<double, LD>(s), add_mixed<int, size_t>(s), add_mixed<size_t, double>(s);
    return mc::main(argc, argv, s);
}
