// N04: SmallVector against std::vector, with element and buffer accounting (run under AddressSanitizer/UBSan)
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <iterator>
#include <list>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "mc.hpp"
static long buffers = 0;
static inline void* cnt_malloc(size_t n) { ++buffers; return malloc(n); }
static inline void cnt_free(void* p) { if (p) --buffers; free(p); }
static inline void* cnt_realloc(void* p, size_t n) { if (!p) ++buffers; return realloc(p, n); }
#define malloc(n) cnt_malloc(n)
#define free(p) cnt_free(p)
#define realloc(p, n) cnt_realloc(p, n)
#include "small-vector.hpp"
#undef malloc
#undef free
#undef realloc

static long live = 0, wrong = 0;
// knows its own address, so that raw copies, reads of dead elements and double destructions are noticed
struct Tracked {
    int v;
    Tracked* self;
    explicit Tracked(int x = 0) : v(x), self(this) { ++live; }
    Tracked(int x, int y) : Tracked(x + y) {}
    Tracked(Tracked const& o) : v(o.v), self(this) { ++live; o.ok(); }
    Tracked(Tracked&& o) noexcept : v(o.v), self(this) { ++live; o.ok(), o.v = -1; }
    Tracked& operator=(Tracked const& o) { ok(), o.ok(), v = o.v; return *this; }
    Tracked& operator=(Tracked&& o) noexcept { ok(), o.ok(); if (this != &o) v = o.v, o.v = -1; return *this; }
    ~Tracked() { ok(), --live, self = nullptr, v = -77; }
    void ok() const { if (self != this) ++wrong; }
    bool operator==(Tracked const& o) const { return ok(), o.ok(), v == o.v; }
    bool operator<(Tracked const& o) const { return ok(), o.ok(), v < o.v; }
};
template <typename T> struct El;
template <> struct El<Tracked> { static Tracked mk(int i) { return Tracked(i); } static int get(Tracked const& t) { return t.ok(), t.v; } static const char* n() { return "tracked"; } };
template <> struct El<int> { static int mk(int i) { return i; } static int get(int t) { return t; } static const char* n() { return "int"; } };
template <> struct El<double> { static double mk(int i) { return i; } static int get(double t) { return (int)t; } static const char* n() { return "double"; } };
template <> struct El<std::string> {
    static std::string mk(int i) { return std::string(i % 3 ? 3 : 40, 'x') + std::to_string(i); }
    static int get(std::string const& t) { auto p = t.find_last_of('x'); return p == std::string::npos ? (t.empty() ? 0 : -1) : atoi(t.c_str() + p + 1); }
    static const char* n() { return "std::string"; }
};
static const char* NAMES[] = {"push_back", "push_back(move)", "emplace_back", "pop_back", "insert(begin)", "insert(1,move)", "insert(end)", "insert(1,2 x value)", "insert(begin,5 x value)", "insert(1,range of 3)",
                              "insert(begin,list of 1)", "insert(end-1,range of other)", "insert(1,no values)", "erase(begin)", "erase(last)", "erase(1..3)", "erase(nothing)", "erase(all)", "resize(0)", "resize(1)",
                              "resize(3)", "resize(6,value)", "reserve(5)", "clear", "assign(3,value)", "assign(range of 2)", "assign(list of 4)", "append(range of 3)", "append(2,value)", "append(list of 1)",
                              "swap", "b=a", "a=b", "b=move(a)", "a=move(b)", "copy", "move", "a=a", "pop_back_val", "insert(begin,own last)", "list assignment", "construct(3,value)", "erase(second)", "swap with self", "a=move(a)"};
static const int K = sizeof NAMES / sizeof *NAMES;
template <typename T, unsigned N> struct Run {
    using SV = llvm::SmallVector<T, N>;
    using M = std::vector<int>;
    static void go(mc::Case& c, uint64_t i, bool large) {
        mc::Dec d(i);
        static const int LA[] = {8, 17, 33, 64, 100, 129, 256, 1000}, LB[] = {0, 6, 40, 300};
        int na = large ? LA[d(8)] : d(5), nb = large ? LB[d(4)] : d(3) * 2;
        auto sq = mc::seq(d.v, K);
        std::string t = mc::fmt("SmallVector<%s,%u> a of %d, b of %d:", El<T>::n(), N, na, nb);
        live = wrong = buffers = 0;
        {
            SV a, b;
            M ma, mb;
            int next = 1;
            auto V = [&] { return El<T>::mk(next); };
            for (int k = 0; k < na; ++k, ++next) a.push_back(V()), ma.push_back(next);
            for (int k = 0; k < nb; ++k, ++next) b.push_back(V()), mb.push_back(next);
            auto same = [&](SV const& s, M const& m, const char* w) {
                bool ok = s.size() == m.size() && s.empty() == m.empty() && s.capacity() >= m.size() && (size_t)(s.end() - s.begin()) == m.size() && s.data() == s.begin() && s.size_in_bytes() == m.size() * sizeof(T);
                for (size_t k = 0; ok && k < m.size(); ++k) ok = El<T>::get(s[k]) == m[k];
                if (ok && !m.empty()) ok = El<T>::get(s.front()) == m.front() && El<T>::get(s.back()) == m.back();
                size_t k = m.size();
                if (ok) for (auto r = s.rbegin(); r != s.rend() && ok; ++r) ok = El<T>::get(*r) == m[--k];
                if (ok) return true;
                std::string g, x;
                for (size_t q = 0; q < s.size() && q < 20; ++q) g += mc::fmt(" %d", El<T>::get(s[q]));
                for (int q : m) x += mc::fmt(" %d", q);
                c.fail("contents", t + " " + w + " holds" + g + " instead of" + x);
                return false;
            };
            for (int o : sq) {
                size_t n = ma.size();
                ++next;
                T v = V();
                std::vector<T> r3;
                std::list<T> l2;
                for (int k = 0; k < 3; ++k) r3.push_back(El<T>::mk(next + 100 + k));
                for (int k = 0; k < 2; ++k) l2.push_back(El<T>::mk(next + 200 + k));
                M m3{next + 100, next + 101, next + 102}, m2{next + 200, next + 201};
                typename SV::iterator it = nullptr;
                size_t at = 0;
                if ((o == 3 || o == 13 || o == 14 || o == 38 || o == 39 || o == 11) && n < 1) return c.states();
                if ((o == 5 || o == 7 || o == 9 || o == 12) && n < 1) return c.states();
                if (o == 15 && n < 3) return c.states();
                if (o == 42 && n < 2) return c.states();
                if (o == 39 && a.size() == a.capacity()) return c.states();  // the argument is an element and the vector has to grow
                switch (o) {
                    case 0: a.push_back(v), ma.push_back(next); break;
                    case 1: a.push_back(std::move(v)), ma.push_back(next); break;
                    case 2: if constexpr (std::is_same_v<T, Tracked>) a.emplace_back(next - 1, 1); else a.emplace_back(v); ma.push_back(next); break;
                    case 3: a.pop_back(), ma.pop_back(); break;
                    case 4: it = a.insert(a.begin(), v), ma.insert(ma.begin(), next); break;
                    case 5: it = a.insert(a.begin() + 1, std::move(v)), ma.insert(ma.begin() + 1, next), at = 1; break;
                    case 6: at = n, it = a.insert(a.end(), v), ma.push_back(next); break;
                    case 7: it = a.insert(a.begin() + 1, (size_t)2, v), ma.insert(ma.begin() + 1, 2, next), at = 1; break;
                    case 8: it = a.insert(a.begin(), (size_t)5, v), ma.insert(ma.begin(), 5, next); break;
                    case 9: it = a.insert(a.begin() + 1, r3.begin(), r3.end()), ma.insert(ma.begin() + 1, m3.begin(), m3.end()), at = 1; break;
                    case 10: a.insert(a.begin(), {v}), ma.insert(ma.begin(), next); break;
                    case 11: at = n - 1, it = a.insert(a.end() - 1, b.begin(), b.end()), ma.insert(ma.end() - 1, mb.begin(), mb.end()); break;
                    case 12: it = a.insert(a.begin() + 1, l2.begin(), l2.begin()), at = 1; break;
                    case 13: it = a.erase(a.begin()), ma.erase(ma.begin()); break;
                    case 14: it = a.erase(a.end() - 1), ma.pop_back(), at = n - 1; break;
                    case 15: it = a.erase(a.begin() + 1, a.begin() + 3), ma.erase(ma.begin() + 1, ma.begin() + 3), at = 1; break;
                    case 16: it = a.erase(a.begin(), a.begin()); break;
                    case 17: it = a.erase(a.begin(), a.end()), ma.clear(); break;
                    case 18: a.resize(0), ma.resize(0); break;
                    case 19: a.resize(1), ma.resize(1); break;
                    case 20: a.resize(3), ma.resize(3); break;
                    case 21: a.resize(6, v), ma.resize(6, next); break;
                    case 22: a.reserve(5); if (!c.check(a.capacity() >= 5, "reserve", t)) return; break;
                    case 23: a.clear(), ma.clear(); break;
                    case 24: a.assign(3, v), ma.assign(3, next); break;
                    case 25: a.assign(l2.begin(), l2.end()), ma = m2; break;
                    case 26: a.assign({v, r3[0], r3[1], v}), ma = {next, m3[0], m3[1], next}; break;
                    case 27: a.append(r3.begin(), r3.end()), ma.insert(ma.end(), m3.begin(), m3.end()); break;
                    case 28: a.append((size_t)2, v), ma.insert(ma.end(), 2, next); break;
                    case 29: a.append({v}), ma.push_back(next); break;
                    case 30: std::swap(a, b), ma.swap(mb); break;
                    case 31: b = a, mb = ma; break;
                    case 32: a = b, ma = mb; break;
                    case 33: b = std::move(a), mb = ma, a.clear(), ma.clear(); break;
                    case 34: a = std::move(b), ma = mb, b.clear(), mb.clear(); break;
                    case 35: { SV x(a); if (!same(x, ma, "copy")) return; x.push_back(v); b = x, mb = ma, mb.push_back(next); break; }
                    case 36: { SV x(std::move(a)); if (!same(x, ma, "moved")) return; a.clear(); a.push_back(v); mb = ma, ma = {next}; b = std::move(x); break; }
                    case 37: { SV const& s = a; a = s; break; }
                    case 38: { T x = a.pop_back_val(); if (!c.check(El<T>::get(x) == ma.back(), "pop_back_val", t)) return; ma.pop_back(); break; }
                    case 39: it = a.insert(a.begin(), a.back()), ma.insert(ma.begin(), int(ma.back())); break;
                    case 40: a = {r3[2], v}, ma = {m3[2], next}; break;
                    case 41: { SV x(3, v), y(r3.begin(), r3.end()), z({v, v}); if (!same(x, {next, next, next}, "constructed") || !same(y, m3, "constructed") || !same(z, {next, next}, "constructed")) return; a.swap(x), ma = {next, next, next}; break; }
                    case 42: it = a.erase(a.begin() + 1), ma.erase(ma.begin() + 1), at = 1; break;
                    case 43: a.swap(a); break;
                    case 44: { SV& s = a; a = std::move(s); break; }
                }
                t += std::string(" ") + NAMES[o];
                c.transitions();
                if (it && !c.check((size_t)(it - a.begin()) == at, "iterator", t + mc::fmt(" returned position %td instead of %zu", it - a.begin(), at))) return;
                if (!same(a, ma, "a") || !same(b, mb, "b")) return;
                if (!c.check((a == b) == (ma == mb) && (a != b) == (ma != mb), "comparison", t)) return;
                if constexpr (!std::is_same_v<T, std::string>) if (!c.check((a < b) == (ma < mb), "comparison", t)) return;
                size_t tmp = 1 + r3.size() + l2.size();
                if constexpr (std::is_same_v<T, Tracked>) if (!c.check(live == (long)(a.size() + b.size() + tmp) && !wrong, "elements", t + mc::fmt(": %ld elements alive instead of %zu, %ld wrong uses", live - (long)tmp, a.size() + b.size(), wrong))) return;
            }
            c.outcome(mc::Hasher()((int)ma.size())((int)mb.size())(ma.empty() ? -1 : ma.front()).h);
        }
        c.states();
        c.sample(t);
        c.check(live == 0 && wrong == 0, "elements", t + mc::fmt(": %ld elements left after the vectors are gone, %ld wrong uses", live, wrong));
        c.check(buffers == 0, "memory", t + mc::fmt(": %ld buffers left after the vectors are gone", buffers));
    }
    static void add(std::vector<mc::Suite>& s, int depth = 2) {
        s.push_back({mc::fmt("%s %u", El<T>::n(), N), "vectors of 0-4 and {0,2,4} elements x all sequences of up to 2-3 (thorough: 4) of 45 operations",
                     [depth](bool t) { return 15 * mc::nseq(K, t ? 4 : depth); }, [](mc::Case& c, uint64_t i) { go(c, i, false); }, 15});
    }
    static void many(std::vector<mc::Suite>& s) {
        s.push_back({mc::fmt("%s %u, many elements", El<T>::n(), N), "vectors of 8-1000 and 0-300 elements x all sequences of up to 2 of 45 operations",
                     [](bool t) { return 32 * mc::nseq(K, t ? 3 : 2); }, [](mc::Case& c, uint64_t i) { go(c, i, true); }, 60});
    }
};
int main(int argc, char** argv) {
    std::vector<mc::Suite> s;
    Run<Tracked, 0>::add(s), Run<Tracked, 1>::add(s, 3), Run<Tracked, 2>::add(s, 3), Run<Tracked, 3>::add(s), Run<Tracked, 5>::add(s);
    Run<int, 0>::add(s), Run<int, 1>::add(s, 3), Run<int, 2>::add(s, 3), Run<int, 3>::add(s), Run<int, 5>::add(s);
    Run<double, 1>::add(s), Run<double, 3>::add(s);
    Run<std::string, 1>::add(s, 3), Run<std::string, 3>::add(s);
    Run<Tracked, 4>::many(s), Run<Tracked, 40>::many(s), Run<int, 16>::many(s), Run<double, 128>::many(s), Run<std::string, 12>::many(s);
    return mc::main(argc, argv, s);
}
