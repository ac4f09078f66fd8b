// N01: compensated numbers, against exact arithmetic
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <sstream>

#include "kahan-number.hpp"
#include "mc.hpp"
#include "vector/vector3.hpp"
using X = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<400, boost::multiprecision::digit_base_2, void, int, -20000, 20000>, boost::multiprecision::et_off>;
template <typename T> static T U() { return std::numeric_limits<T>::epsilon() / 2; }  // unit roundoff
// what a number that went through the operations so far promises: |value - s| <= b + u|s|
struct Ref { X s = 0, b = 0, m = 0; bool exact = true; };
template <typename K> struct Tr;
template <typename T> struct Tr<hub::Kahan<T>> { static constexpr int order = 1; static const char* n() { return "Kahan"; } };
template <typename T> struct Tr<hub::Neumaier<T>> { static constexpr int order = 1; static const char* n() { return "Neumaier"; } };
template <typename T> struct Tr<hub::Klein<T>> { static constexpr int order = 2; static const char* n() { return "Klein"; } };
template <typename T> static const char* tn() { return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double"; }

template <typename T> struct Ops {
    T u = U<T>();
    std::vector<T> add, mul;
    Ops() {
        T third = T(1) / 3, big = std::ldexp(T(1), 20), tiny = std::ldexp(T(1), -20);
        add = {1, u, 3 * u, third, big + third * big, tiny / 3, -1, 1 / u / 2};
        mul = {2, third, -tiny, 1 / u};
    }
    // operations: += each, -= each, *= each, /= each, then the special ones
    int nadd() const { return add.size(); }
    int nmul() const { return mul.size(); }
    int count() const { return 2 * nadd() + 2 * nmul() + 9; }
    std::string name(int o) const {
        int a = nadd(), m = nmul();
        auto f = [](T x) { return mc::fmt("%.21Lg", (long double)x); };
        if (o < a) return "+=" + f(add[o]);
        if (o < 2 * a) return "-=" + f(add[o - a]);
        o -= 2 * a;
        if (o < m) return "*=" + f(mul[o]);
        if (o < 2 * m) return "/=" + f(mul[o - m]);
        static const char* s[] = {"+=itself", "-=itself", "=plain 1/3", "copy", "negate", "stream in", "+=number", "-=number", "swap"};
        return s[o - 2 * m];
    }
};
template <typename K> struct Num {
    using T = typename K::value_type;
    Ops<T> ops;
    K other{};  // a compensated operand
    Num() : other(T(1) / 3) {}
    void charge(Ref& r, X add) const {
        X u = U<T>(), c = 4;
        r.s += add;
        if (abs(r.s) > r.m) r.m = abs(r.s);
        if (abs(add) > r.m) r.m = abs(add);
        r.b += Tr<K>::order == 1 ? c * (u * abs(add) + u * u * r.m) : 2 * c * u * u * (abs(add) + r.m);
    }
    void apply(int o, K& k, Ref& r) const {
        int a = ops.nadd(), m = ops.nmul();
        X u = U<T>();
        if (o < a) { k += ops.add[o]; charge(r, ops.add[o]); return; }
        if (o < 2 * a) { k -= ops.add[o - a]; charge(r, -X(ops.add[o - a])); return; }
        o -= 2 * a;
        auto scaled = [&](X f) { r.b = r.b * f + 3 * u * abs(r.s), r.m *= f; };
        if (o < m) { X f = ops.mul[o]; k *= ops.mul[o]; r.s *= f; scaled(abs(f)); return; }
        if (o < 2 * m) { X f = ops.mul[o - m]; k /= ops.mul[o - m]; r.s /= f; scaled(1 / abs(f)); return; }
        switch (o - 2 * m) {
            case 0: case 1: {
                // the operand counts with its value as a plain number
                X v = (T)k;
                if (o - 2 * m) k -= k, charge(r, -v); else k += k, charge(r, v);
                return;
            }
            case 2: k = K(T(1) / 3), r = Ref{X(T(1) / 3)}, r.m = r.s; return;
            case 3: { K c(k), d; d = c; k = d; return; }
            case 4: r.s = -X((T)k), r.b = 0, r.m = abs(r.s), k = -k; return;
            case 5: { std::istringstream i("0.125"); i >> k; r = Ref{X(0.125)}; r.m = r.s; return; }
            case 6: k += other, charge(r, X((T)other)); return;
            case 7: k -= other, charge(r, -X((T)other)); return;
            case 8: { K c = other; std::swap(c, k); std::swap(c, k); return; }
        }
    }
    bool ok(K const& k, Ref const& r) const {
        X u = U<T>(), v = (T)k;
        if (Tr<K>::order == 2) {
            // the second order correction of the last operation reaches the value with the next one
            if (abs(v - r.s) > r.b + 2 * u * (abs(r.s) + r.m)) return false;
            K c(k);
            c += T(0);
            v = (T)c;
        }
        return abs(v - r.s) <= r.b + u * abs(r.s) * (1 + 4 * u);
    }
    std::string text(std::vector<int> const& p, T start) const {
        std::string t = mc::fmt("%s<%s> starting with %.21Lg:", Tr<K>::n(), tn<T>(), (long double)start);
        for (int o : p) t += " " + ops.name(o);
        return t;
    }
    static bool dfs(mc::Case& c, Num& n, std::vector<int>& p, K const& k, Ref const& r, T start, int depth) {
        for (int o = 0; o < n.ops.count(); ++o) {
            K k2(k);
            Ref r2 = r;
            n.apply(o, k2, r2);
            p.push_back(o);
            c.states(), c.transitions();
            if (!n.ok(k2, r2)) {
                auto t = n.text(p, start);
                c.fail(std::string(Tr<K>::n()) + " sum", t + mc::fmt(" gives %.21Lg, exact %.21Lg", (long double)(T)k2, (long double)r2.s));
                return false;
            }
            if (depth > 1 && !dfs(c, n, p, k2, r2, start, depth - 1)) return false;
            p.pop_back();
        }
        return true;
    }
    static std::vector<T> starts() { return {0, 1, std::ldexp(T(1), 18) / 3, -1}; }
    static void add(std::vector<mc::Suite>& s) {
        Num n;
        uint64_t k = n.ops.count();
        std::string nm = std::string(Tr<K>::n()) + "<" + tn<T>() + ">";
        s.push_back({nm + " sequences", "4 starting values x all sequences of up to 3 (thorough: 4) operations: += and -= of 8 magnitudes, *= and /= of 4, aliased and compensated operands, copies, assignment, negation, input",
                     [k](bool) { return 4 * k; }, [k](mc::Case& c, uint64_t i) {
                         Num n;
                         mc::Dec d(i);
                         T s0 = starts()[d(4)];
                         int o = d(k);
                         K v(s0);
                         Ref r;
                         r.s = s0, r.m = abs(r.s);
                         std::vector<int> p{o};
                         n.apply(o, v, r);
                         c.sample(n.text(p, s0));
                         if (!n.ok(v, r)) return c.fail(std::string(Tr<K>::n()) + " sum", n.text(p, s0));
                         dfs(c, n, p, v, r, s0, c.thorough ? 3 : 2);
                         c.outcome(i);
                     }, 100});
        // long histories: the error must not grow with the number of terms
        s.push_back({nm + " long sums", "4 starting values x all patterns of 1-3 additions/subtractions of 8 magnitudes, repeated 300 times",
                     [](bool t) { return 4 * (t ? mc::ipow(16, 3) : mc::ipow(16, 2)); }, [](mc::Case& c, uint64_t i) {
                         Num n;
                         mc::Dec d(i);
                         T s0 = starts()[d(4)];
                         K v(s0);
                         Ref r;
                         r.s = s0, r.m = abs(r.s);
                         std::vector<int> p{(int)d(16), (int)d(16)};
                         if (c.thorough) p.push_back(d(16));
                         for (int j = 0; j < 300; ++j)
                             for (int o : p) {
                                 n.apply(o, v, r);
                                 c.states(), c.transitions();
                                 if (!n.ok(v, r)) return c.fail(std::string(Tr<K>::n()) + " sum", n.text(p, s0) + mc::fmt(" repeated %d times gives %.21Lg, exact %.21Lg", j + 1, (long double)(T)v, (long double)r.s));
                             }
                         c.outcome(mc::Hasher()((double)(T)v).h);
                     }, 100});
        // as plain numbers, and componentwise in vectors
        s.push_back({nm + " values", "all pairs of accumulated numbers: binary operators and comparisons are those of the values; Vec3 of compensated numbers is componentwise",
                     [](bool) { return (uint64_t)16 * 16 * 16; }, [](mc::Case& c, uint64_t i) {
                         Num n;
                         mc::Dec d(i);
                         int o[3] = {(int)d(16), (int)d(16), (int)d(16)};
                         Ref r;
                         K a(T(1)), b(T(2) / 3);
                         n.apply(o[0], a, r), n.apply(o[1], a, r), n.apply(o[1], b, r), n.apply(o[2], b, r);
                         T x = a, y = b;
                         std::string t = n.text({o[0], o[1], o[2]}, 1);
                         c.states();
                         K const& ca = a; K const& cb = b;
                         c.check((T)(ca + cb) == x + y && (T)(ca - cb) == x - y && (T)(ca * cb) == x * y && (T)(ca / cb) == x / y, "binary operators", t);
                         c.check((T)(ca + y) == x + y && (T)(x - cb) == x - y && (T)(ca * 2) == x * 2 && (T)(1 / cb) == 1 / y, "mixed operators", t);
                         c.check((ca < cb) == (x < y) && (ca > cb) == (x > y) && (ca <= cb) == (x <= y) && (ca >= cb) == (x >= y) && (ca == cb) == (x == y) && (ca != cb) == (x != y), "comparisons", t);
                         std::ostringstream o1, o2;
                         o1.precision(21), o2.precision(21);
                         o1 << ca, o2 << x;
                         c.check(o1.str() == o2.str(), "output", t + ": " + o1.str() + " instead of " + o2.str());
                         // Vec3<K> += Vec3<T> and Vec3<K> *= T act like the components
                         hub::Vec3<K> v(a, b, K(T(1)));
                         hub::Vec3<T> w(n.ops.add[o[0] % 8], n.ops.add[o[1] % 8], n.ops.add[o[2] % 8]);
                         K e[3] = {a, b, K(T(1))};
                         for (int j = 0; j < 3; ++j) {
                             v += w, e[0] += w.x, e[1] += w.y, e[2] += w.z;
                             v -= hub::Vec3<T>(w.y, w.z, w.x), e[0] -= w.y, e[1] -= w.z, e[2] -= w.x;
                             c.states(), c.transitions();
                             c.check((T)v.x == (T)e[0] && (T)v.y == (T)e[1] && (T)v.z == (T)e[2], "Vec3", t + mc::fmt(" Vec3 differs from its components in round %d", j));
                         }
                         c.outcome(mc::Hasher()((double)x)((double)y).h);
                     }, 100});
    }
};
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    Num<hub::Kahan<float>>::add(s), Num<hub::Kahan<double>>::add(s), Num<hub::Kahan<long double>>::add(s);
    Num<hub::Neumaier<float>>::add(s), Num<hub::Neumaier<double>>::add(s), Num<hub::Neumaier<long double>>::add(s);
    Num<hub::Klein<float>>::add(s), Num<hub::Klein<double>>::add(s), Num<hub::Klein<long double>>::add(s);
    return mc::main(argc, argv, s);
}
