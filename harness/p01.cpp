// P01: particle containers behave as an ordered list of particles
#include <algorithm>
#include <optional>
#include "spaceHub.hpp"
#include "mc.hpp"
using namespace hub;
using namespace hub::particles;
template <typename T> using PointP = PointParticles<T>;

struct Rec { long double m = 0, a[3] = {0, 0, 0}, p[3] = {0, 0, 0}, v[3] = {0, 0, 0}; long id = -1; bool known = false, idknown = false; };
static Rec rec(int k) {
    Rec r;
    r.known = true;
    r.m = 1 + k * 0.5L;
    for (int j = 0; j < 3; ++j) r.a[j] = 10 * (j + 1) + k, r.p[j] = 100 * (j + 1) + k * 0.25L, r.v[j] = -100 * (j + 1) - k * 0.125L;
    return r;
}
// per type glue
template <template <typename> class C> struct Glue;
template <> struct Glue<PointParticles> {
    static constexpr int na = 0;
    static constexpr const char* cols = "time,id,mass,px,py,pz,vx,vy,vz";
    template <typename P, typename V> static P make(Rec const& r, V p, V v) { return P{(typename P::Scalar)r.m, p, v}; }
    template <typename P> static P makec(Rec const& r) { using S = typename P::Scalar; return P{(S)r.m, (S)r.p[0], (S)r.p[1], (S)r.p[2], (S)r.v[0], (S)r.v[1], (S)r.v[2]}; }
    template <typename T> static long double attr(T const&, int, size_t) { return 0; }
    template <typename T> static size_t alen(T const& c, int) { return c.number(); }
    template <typename T> static void set(T&, int, size_t, long double) {}
    template <typename P> static long double pattr(P const&, int) { return 0; }
};
#define GLUE1(T, COLS, ...)                                                                                        \
    template <> struct Glue<T> {                                                                                   \
        static constexpr const char* cols = COLS;                                                                  \
        __VA_ARGS__                                                                                                \
    };
GLUE1(SizeParticles, "time,id,mass,radius,px,py,pz,vx,vy,vz", static constexpr int na = 1;
      template <typename P, typename V> static P make(Rec const& r, V p, V v) { using S = typename P::Scalar; return P{(S)r.m, (S)r.a[0], p, v}; }
      template <typename P> static P makec(Rec const& r) { using S = typename P::Scalar; return P{(S)r.m, (S)r.a[0], (S)r.p[0], (S)r.p[1], (S)r.p[2], (S)r.v[0], (S)r.v[1], (S)r.v[2]}; }
      template <typename T> static long double attr(T const& c, int, size_t i) { return c.radius(i); }
      template <typename T> static size_t alen(T const& c, int) { return c.radius().size(); }
      template <typename T> static void set(T& c, int, size_t i, long double x) { c.radius(i) = x; }
      template <typename P> static long double pattr(P const& p, int) { return p.radius; })
GLUE1(TideParticles, "time,id,mass,radius,k_AM,tau_lag,px,py,pz,vx,vy,vz", static constexpr int na = 3;
      template <typename P, typename V> static P make(Rec const& r, V p, V v) { using S = typename P::Scalar; return P{(S)r.m, (S)r.a[0], (S)r.a[1], (S)r.a[2], p, v}; }
      template <typename P> static P makec(Rec const& r) { using S = typename P::Scalar; return P{(S)r.m, (S)r.a[0], (S)r.a[1], (S)r.a[2], (S)r.p[0], (S)r.p[1], (S)r.p[2], (S)r.v[0], (S)r.v[1], (S)r.v[2]}; }
      template <typename T> static long double attr(T const& c, int j, size_t i) { return j == 0 ? c.radius(i) : j == 1 ? c.tide_apsidal_const(i) : c.tide_lag_time(i); }
      template <typename T> static size_t alen(T const& c, int j) { return j == 0 ? c.radius().size() : j == 1 ? c.tide_apsidal_const().size() : c.tide_lag_time().size(); }
      template <typename T> static void set(T& c, int j, size_t i, long double x) { (j == 0 ? c.radius(i) : j == 1 ? c.tide_apsidal_const(i) : c.tide_lag_time(i)) = x; }
      template <typename P> static long double pattr(P const& p, int j) { return j == 0 ? p.radius : j == 1 ? p.tide_apsidal_const : p.tide_lag_time; })
GLUE1(DragParticles, "time,id,mass,px,py,pz,vx,vy,vz,sub_sonic_c,local_cs", static constexpr int na = 2;
      template <typename P, typename V> static P make(Rec const& r, V p, V v) { using S = typename P::Scalar; return P{(S)r.m, (S)r.a[0], (S)r.a[1], p, v}; }
      template <typename P> static P makec(Rec const& r) { using S = typename P::Scalar; return P{(S)r.m, (S)r.a[0], (S)r.a[1], (S)r.p[0], (S)r.p[1], (S)r.p[2], (S)r.v[0], (S)r.v[1], (S)r.v[2]}; }
      template <typename T> static long double attr(T const& c, int j, size_t i) { return j == 0 ? c.sub_sonic_c(i) : c.local_cs(i); }
      template <typename T> static size_t alen(T const& c, int j) { return j == 0 ? c.sub_sonic_c().size() : c.local_cs().size(); }
      template <typename T> static void set(T& c, int j, size_t i, long double x) { (j == 0 ? c.sub_sonic_c(i) : c.local_cs(i)) = x; }
      template <typename P> static long double pattr(P const& p, int j) { return j == 0 ? p.sub_sonic_coef : p.local_cs; })

template <typename S> static bool eq(S const& s, long double x) { return (long double)s == x; }
template <typename R> static long double ld(R const& r) { return (long double)(typename raw_type<R>::type)r; }

template <template <typename> class C, typename Ty>
struct World {
    using Ptc = C<Ty>;
    using G = Glue<C>;
    using P = typename Ptc::Particle;
    using V = typename P::Vector;
    using S = typename Ptc::Scalar;
    struct Slot { Ptc c; std::vector<Rec> m; long double t = 0; size_t cap = 0; };
    std::vector<Slot> s;
    int fresh = 0;
    static P mk(Rec const& r, bool comps) {
        if (comps) return G::template makec<P>(r);
        return G::template make<P, V>(r, V((S)r.p[0], (S)r.p[1], (S)r.p[2]), V((S)r.v[0], (S)r.v[1], (S)r.v[2]));
    }
    static void write(Ptc& c, size_t i, Rec const& r) {
        c.mass(i) = (S)r.m;
        for (int j = 0; j < G::na; ++j) G::set(c, j, i, r.a[j]);
        c.pos(i).x = (S)r.p[0], c.pos(i).y = (S)r.p[1], c.pos(i).z = (S)r.p[2];
        c.vel(i).x = (S)r.v[0], c.vel(i).y = (S)r.v[1], c.vel(i).z = (S)r.v[2];
    }
    void construct(int n) {
        Slot q;
        std::vector<P> v;
        for (int i = 0; i < n; ++i) { Rec r = rec(fresh++); r.id = i; r.idknown = true; q.m.push_back(r); v.push_back(mk(r, i & 1)); }
        q.t = 2.5L + n;
        q.c = Ptc((S)q.t, v);
        s.push_back(std::move(q));
    }
    // returns a name
    std::string apply(int op) {
        Slot& a = s[0];
        size_t n = a.m.size();
        switch (op) {
            case 0: case 1: {
                Rec r = rec(fresh++);
                r.id = n, r.idknown = true;
                a.c.emplace_back(mk(r, op == 1));
                a.m.push_back(r);
                return "emplace_back";
            }
            case 2: a.c.resize(n + 1); a.m.resize(n + 1); return "resize(+1)";
            case 3: a.c.resize(n / 2); a.m.resize(n / 2); return "resize(half)";
            case 4: a.c.resize(18); a.m.resize(18); return "resize(18)";
            case 5: a.c.reserve(n + 3); a.cap = std::max(a.cap, n + 3); return "reserve(+3)";
            case 6: a.c.reserve(19); a.cap = std::max<size_t>(a.cap, 19); return "reserve(19)";
            case 7: a.c.clear(); a.m.clear(); return "clear";
            case 8: if (n) { Rec r = rec(fresh++); r.id = a.m[n - 1].id, r.idknown = a.m[n - 1].idknown; write(a.c, n - 1, r); a.m[n - 1] = r; } return "set(last)";
            case 9: if (n) { Rec r = rec(fresh++); r.id = a.m[0].id, r.idknown = a.m[0].idknown; write(a.c, 0, r); a.m[0] = r; } return "set(first)";
            case 10: a.t = a.t + 1.5L; a.c.time() = (S)a.t; return "time=";
            case 11: {  // rebuild from to_AoS
                auto v = a.c.to_AoS();
                a.c = Ptc((S)a.t, v);
                for (size_t i = 0; i < a.m.size(); ++i) a.m[i].id = i, a.m[i].idknown = true;
                a.cap = 0;
                return "rebuild(to_AoS)";
            }
            case 12: { Ptc t(a.c); std::swap(t, a.c); a.cap = 0; return "copy+swap"; }
            case 13: { Ptc t; t = a.c; t.emplace_back(mk(rec(77), false)); return "copy=,grow the copy"; }
            case 14: { Ptc t(std::move(a.c)); a.c = std::move(t); a.cap = 0; return "move"; }
        }
        return "?";
    }
    bool verify(mc::Case& k, std::string const& h) {
        Slot& a = s[0];
        auto const& c = a.c;
        size_t n = a.m.size();
        if (!k.check(c.number() == n, "number", h + mc::fmt(" number()=%zu expected %zu", (size_t)c.number(), n))) return false;
        bool len = c.mass().size() == n && c.idn().size() == n && c.pos().size() == n && c.vel().size() == n;
        for (int j = 0; j < G::na; ++j) len = len && G::alen(c, j) == n;
        if (!k.check(len, "array length", h)) return false;
        if (!k.check(ld(c.time()) == a.t, "time", h)) return false;
        if (!k.check(c.capacity() >= n && c.capacity() >= a.cap, "capacity", h + mc::fmt(" capacity()=%zu reserved %zu", (size_t)c.capacity(), a.cap))) return false;
        if (!k.check(c.column_names() == G::cols, "column_names", c.column_names())) return false;
        auto v = c.to_AoS();
        if (!k.check(v.size() == n, "to_AoS size", h)) return false;
        for (size_t i = 0; i < n; ++i) {
            Rec const& r = a.m[i];
            if (r.idknown && !k.check((long)c.idn(i) == r.id && (long)c.idn()[i] == r.id, "id", h + mc::fmt(" idn(%zu)=%ld expected %ld", i, (long)c.idn(i), r.id))) return false;
            if (!r.known) continue;
            bool ok = eq(c.mass(i), r.m) && eq(c.mass()[i], r.m);
            ok = ok && ld(c.pos(i).x) == r.p[0] && ld(c.pos(i).y) == r.p[1] && ld(c.pos(i).z) == r.p[2];
            ok = ok && ld(c.vel(i).x) == r.v[0] && ld(c.vel(i).y) == r.v[1] && ld(c.vel(i).z) == r.v[2];
            for (int j = 0; j < G::na; ++j) ok = ok && G::attr(c, j, i) == r.a[j];
            if (!k.check(ok, "stored attribute", h + mc::fmt(" element %zu", i))) return false;
            P const& p = v[i];
            ok = eq(p.mass, r.m) && eq(p.pos.x, r.p[0]) && eq(p.pos.y, r.p[1]) && eq(p.pos.z, r.p[2]) && eq(p.vel.x, r.v[0]) && eq(p.vel.y, r.v[1]) && eq(p.vel.z, r.v[2]);
            for (int j = 0; j < G::na; ++j) ok = ok && G::pattr(p, j) == r.a[j];
            if (!k.check(ok, "to_AoS", h + mc::fmt(" element %zu", i))) return false;
        }
        return true;
    }
};
static const int NOP = 15;
static const int starts[] = {0, 1, 3, 5, 16};
static const int large[] = {17, 33, 64, 100, 257};
template <template <typename> class C, typename Ty>
mc::Suite suite(std::string name, unsigned q, unsigned th, const int* sizes = starts) {
    return {name, mc::fmt("5 start sizes (%s) x all sequences of <=%u (thorough %u) of 15 operations", sizes == starts ? "0,1,3,5,16; inline limits are 5 and 16" : "17,33,64,100,257", q, th),
            [=](bool t) { return 5 * mc::nseq(NOP, t ? th : q); },
            [=](mc::Case& k, uint64_t i) {
                World<C, Ty> w;
                int n = sizes[i % 5];
                auto ops = mc::seq(i / 5, NOP);
                std::string h;
                if (n == 0) {
                    w.s.emplace_back();
                    h = "[default]";
                } else {
                    w.construct(n);
                    h = mc::fmt("[n=%d]", n);
                }
                if (!w.verify(k, h)) return;
                for (int op : ops) {
                    h += " " + w.apply(op);
                    k.transitions();
                    if (!w.verify(k, h)) return;
                    k.states();
                }
                mc::Hasher hs;
                for (auto& r : w.s[0].m) hs(r.known)(r.id)((double)r.m);
                k.outcome(hs.h);
                k.sample(h);
            }};
}
int main(int c, char** v) {
    std::vector<mc::Suite> s;
    s.push_back(suite<PointParticles, Types<double>>("point/double", 4, 5));
    s.push_back(suite<SizeParticles, Types<double>>("size/double", 4, 5));
    s.push_back(suite<TideParticles, Types<double>>("tide/double", 4, 5));
    s.push_back(suite<DragParticles, Types<double>>("drag/double", 4, 5));
    s.push_back(suite<PointParticles, Types<double_k>>("point/double_k", 3, 4));
    s.push_back(suite<SizeParticles, Types<double_k>>("size/double_k", 3, 4));
    s.push_back(suite<TideParticles, Types<double_k>>("tide/double_k", 3, 4));
    s.push_back(suite<DragParticles, Types<double_k>>("drag/double_k", 3, 4));
    s.push_back(suite<PointParticles, Types<float>>("point/float", 3, 4));
    s.push_back(suite<TideParticles, Types<long double>>("tide/long double", 3, 4));
    s.push_back(suite<PointParticles, Types<double>>("point/double, many", 2, 3, large));
    s.push_back(suite<SizeParticles, Types<double_k>>("size/double_k, many", 2, 3, large));
    s.push_back(suite<TideParticles, Types<double>>("tide/double, many", 2, 3, large));
    s.push_back(suite<DragParticles, Types<double>>("drag/double, many", 2, 3, large));
    return mc::main(c, v, s);
}
