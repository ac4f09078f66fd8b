// I03: step-size controller formulas and limits, over every parameter setting, order and error of the alphabet
#include <array>
#include <cmath>
#include <string>
#include <tuple>
#include <vector>
#include "spaceHub.hpp"
#include "mc.hpp"
using mc::fmt;
typedef long double LD;
static const double S1[] = {0.65, 0.72, 0.9}, S2[] = {0.95, 1.0, 0.5};
static const double S3[] = {0.02, 0.1, 0.5}, S4[] = {4.0, 1.5, 10.0};
static const double KP[] = {0.7, 1.0, 0.3}, KI[] = {0.4, 0.0, 0.9};
static const double ERR[] = {0, 1e-300, 1e-16, 1e-8, 0.01, 0.4, 0.95, 1.0, 1.3, 7.0, 1e4, 1e12, 1e300};
static const int NE = 13;
static const int ORD[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 30, 49};
struct Par { double s1, s2, s3, s4, kp, ki; };
static LD powl2(LD x, LD p) { return powl(x, p); }
static bool near(LD a, LD b, double tol) { return std::isinf(b) || b > 1e300L ? (std::isinf(a) || a > 1e290L) : std::fabs(a - b) <= tol * std::max(std::fabs(b), (LD)1e-300L); }
template <typename TS>
static void one(mc::Case& c, Par q, int set, int order, double e0, double e1, double tol) {
    using Sc = typename TS::Scalar;
    hub::ode::PIDController<TS> k;
    Par p{0.65, 0.95, 0.02, 4.0, 0.7, 0.4};  // documented defaults
    if (set & 1) p.s1 = q.s1, p.s2 = q.s2, k.set_safe_guards(Sc(q.s1), Sc(q.s2));
    if (set & 2) {
        if (set & 8) k.set_limiter(Sc(0.3), Sc(2));  // set twice: the last one counts
        p.s3 = q.s3, p.s4 = q.s4, k.set_limiter(Sc(q.s3), Sc(q.s4));
    }
    if (set & 4) p.kp = q.kp, p.ki = q.ki, k.set_PID_coefficients(Sc(q.kp), Sc(q.ki), Sc(0));
    std::string in = fmt("S=(%g,%g,%g,%g) Kp=%g Ki=%g order %d errors (%g,%g): ", p.s1, p.s2, p.s3, p.s4, p.kp, p.ki, order, e0, e1);
    LD ex = 1.0L / order;
    LD hi = powl2(1 / (LD)p.s3, ex), lo = powl2(p.s3, ex) / p.s4;
    auto chk = [&](const char* n, LD got, LD want) {
        c.states();
        if (!near(got, want, tol)) c.fail(n, in + fmt("%s = %.17Lg, expected %.17Lg", n, got, want));
    };
    chk("limiter_max", k.limiter_max(order), hi);
    chk("limiter_min", k.limiter_min(order), lo);
    chk("limiter_max()", k.limiter_max(), p.s4);
    chk("limiter_min()", k.limiter_min(), 1 / (LD)p.s4);
    auto clamp = [&](LD x) { return x < lo ? lo : x > hi ? hi : x; };
    LD n1 = e0 == 0 ? hi : p.s1 * powl2(p.s2 / (LD)e0, ex);
    chk("next", k.next(order, Sc(e0)), n1);
    chk("next_with_limiter", k.next_with_limiter(order, Sc(e0)), clamp(n1));
    std::array<Sc, 1> a1{Sc(e0)};
    chk("next(1 error)", k.next(order, a1), n1);
    chk("next_with_limiter(1 error)", k.next_with_limiter(order, a1), clamp(n1));
    std::tuple<Sc, Sc> t2{Sc(e0), Sc(e1)};
    std::array<Sc, 2> a2{Sc(e0), Sc(e1)};
    LD n2 = e0 == 0 ? hi : p.s1 * powl2(p.s2 / (LD)e0, p.kp * ex) * powl2(e1 / (LD)p.s2, p.ki * ex);
    if (!(n2 > 1e290L)) {
        chk("next(2 errors)", k.next(order, a2), n2);
        chk("next(tuple)", k.next(order, t2), n2);
        chk("next_with_limiter(2 errors)", k.next_with_limiter(order, a2), clamp(n2));
    }
    static const double R[] = {0, 1e-6, 0.3, 1, 2.9, 50, 1e9};
    for (double r : R) {
        chk("limiter(order)", k.limiter(order, Sc(r)), clamp(r));
        chk("limiter", k.limiter(Sc(r)), r < 1 / p.s4 ? 1 / (LD)p.s4 : r > p.s4 ? (LD)p.s4 : (LD)r);
    }
    // a larger error never yields a larger step
    c.outcome(mc::hash(in));
    auto o = k;  // copies behave the same
    chk("copy", o.next_with_limiter(order, Sc(e0)), clamp(n1));
}
static void params(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    Par q{S1[d(3)], S2[d(3)], S3[d(3)], S4[d(3)], 0.7, 0.4};
    int set = d(16), order = ORD[d(20)];
    double e0 = ERR[d(NE)], e1 = ERR[d(NE)];
    if (set & 4) q.kp = KP[(set / 8 + order) % 3], q.ki = KI[order % 3];
    if (i % 1000 == 7) c.sample(fmt("set %d order %d", set, order));
    one<hub::Types<double>>(c, q, set, order, e0, e1, 1e-10);
}
static void pid(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    Par q{0.72, 0.95, 0.02, 4, KP[d(3)], KI[d(3)]};
    int order = ORD[d(20)];
    double e0 = ERR[d(NE)], e1 = ERR[d(NE)];
    int set = d(16);
    one<hub::Types<double>>(c, q, set, order, e0, e1, 1e-10);
    one<hub::Types<long double>>(c, q, set, order, e0, e1, 1e-13);
}
// monotone in the error, bounded, for a fine ladder of errors
static void mono(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int order = 1 + d(49), a = d(3), b = d(3);
    hub::ode::PIDController<hub::Types<double>> k;
    k.set_safe_guards(S1[a], S2[a]);
    k.set_limiter(S3[b], S4[b]);
    double prev = INFINITY, lo = k.limiter_min(order), hi = k.limiter_max(order);
    for (int e = -200; e <= 200; ++e) {
        double err = std::pow(10.0, e * 0.1), s = k.next_with_limiter(order, err);
        c.states();
        if (!(s <= prev * (1 + 1e-12))) { c.fail("monotone", fmt("order %d: step ratio grows from %.17g to %.17g as the error grows to %g", order, prev, s, err)); return; }
        if (s < lo * (1 - 1e-12) || s > hi * (1 + 1e-12)) { c.fail("bounds", fmt("order %d: step ratio %.17g outside [%g,%g]", order, s, lo, hi)); return; }
        prev = s;
    }
    double z = k.next_with_limiter(order, 0.0);
    c.check(z >= prev && std::fabs(z - hi) < 1e-9 * hi, "zero", fmt("order %d: error 0 gives %g, not the maximum %g", order, z, hi));
}
static void constant(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    hub::ode::ConstStepController<hub::Types<double>> k;
    double h = std::vector<double>{0.25, -3, 1e-9}[d(3)], e = ERR[d(NE)];
    std::array<double, 2> a{e, 1};
    int o = ORD[d(20)];
    c.check(k.next(o, h, e) == h && k.next(o, h, a) == h && k.next_with_limiter(o, h, e) == h && k.next_with_limiter(o, h, a) == h, "const", fmt("constant controller changes the step %g", h));
}
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    s.push_back({"params", "S1,S2 x S3,S4 (3 values each) x which setters are called x 20 orders x 13x13 errors incl. 0 and 1e+-300", [](bool) { return 81ull * 16 * 20 * NE * NE; }, params});
    s.push_back({"pid", "3 Kp x 3 Ki x 20 orders x 13x13 errors x which setters are called, double and long double", [](bool) { return 9ull * 20 * NE * NE * 16; }, pid});
    s.push_back({"mono", "401 errors 1e-20..1e20 x orders 1..49 x 9 settings", [](bool) { return 49ull * 9; }, mono});
    s.push_back({"const", "constant controller", [](bool) { return 3ull * NE * 20; }, constant});
    return mc::main(argc, argv, s);
}
