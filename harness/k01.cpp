// K01: chain = nearest neighbour permutation with consistent coordinates
#include <algorithm>
#include <numeric>
#include "spaceHub.hpp"
#include "mc.hpp"
using namespace hub;
using mc::fmt;
typedef long double LD;
template <typename R> static LD ld(R const& r) { return (LD)(typename raw_type<R>::type)r; }
template <typename V> static LD d2(V const& a, V const& b) {
    LD x = ld(a.x) - ld(b.x), y = ld(a.y) - ld(b.y), z = ld(a.z) - ld(b.z);
    return x * x + y * y + z * z;
}
template <typename I> static bool is_perm(I const& idx, size_t n) {
    if (idx.size() != n) return false;
    std::vector<char> s(n);
    for (auto i : idx) { if (i >= n || s[i]) return false; s[i] = 1; }
    return true;
}
// could the greedy construction (any tie breaking, either orientation) have produced this order?
template <typename A, typename I> static bool greedy(A const& p, I const& idx, LD eps) {
    size_t n = idx.size();
    LD best = INFINITY;
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) best = std::min(best, d2(p[i], p[j]));
    std::vector<std::pair<size_t, size_t>> w;  // windows [l,r]
    for (size_t i = 0; i + 1 < n; ++i) if (d2(p[idx[i]], p[idx[i + 1]]) <= best * (1 + eps)) w.push_back({i, i + 1});
    for (size_t len = 2; len < n; ++len) {
        std::vector<std::pair<size_t, size_t>> nw;
        for (auto [l, r] : w) {
            LD m = INFINITY;
            for (size_t k = 0; k < n; ++k)
                if (k < l || k > r) m = std::min({m, d2(p[idx[l]], p[idx[k]]), d2(p[idx[r]], p[idx[k]])});
            if (l > 0 && d2(p[idx[l]], p[idx[l - 1]]) <= m * (1 + eps)) nw.push_back({l - 1, r});
            if (r + 1 < n && d2(p[idx[r]], p[idx[r + 1]]) <= m * (1 + eps)) nw.push_back({l, r + 1});
        }
        std::sort(nw.begin(), nw.end());
        nw.erase(std::unique(nw.begin(), nw.end()), nw.end());
        w = nw;
        if (w.empty()) return false;
    }
    return !w.empty();
}
template <typename I> static std::string str(I const& v) { std::string s; for (auto x : v) s += fmt("%d ", (int)x); return s; }
static const double P[14][3] = {{0, 0, 0}, {1, 0, 0}, {0, 3, 0}, {7, 1, 2}, {8, 1, 2}, {-5, 2, 9}, {-5, 2, 11}, {20, -3, 4}, {1, 1, 1}, {-30, 8, -6}, {-30, 9, -8}, {2, -17, 5}, {0, 0, 4}, {100, 50, -25}};
// many points: quadratic residues, distinct for the parameters used
static std::array<double, 3> many(int a, int b, int j) { return {double((a * j * j + 3 * j) % 211), double((b * j) % 197) + (j / 197) * .5, double((j * 7 + a) % 13)}; }
template <typename Ty> mc::Suite large_suite(std::string tn) {
    static const int N[] = {9, 10, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 64, 65, 100, 130};
    return {"index large " + tn, "9..130 particles (17 sizes) x 12 x 9 arrangements (quadratic residues) with many equal distances",
            [=](bool) { return (uint64_t)17 * 12 * 9; },
            [=](mc::Case& k, uint64_t i) {
                mc::Dec D(i);
                int n = N[D(17)], a = 1 + 7 * D(12), b = 5 + 11 * D(9);
                typename Ty::StateVectorArray pos;
                using S = typename Ty::Scalar;
                for (int j = 0; j < n; ++j) { auto q = many(a, b, j); pos.emplace_back((S)q[0], (S)q[1], (S)q[2]); }
                typename Ty::IdxArray idx;
                Chain::calc_chain_index(pos, idx);
                k.transitions();
                std::string h = fmt("n=%d a=%d b=%d -> ", n, a, b) + str(idx);
                if (!k.check(is_perm(idx, n), "not a permutation", h)) return;
                if (!k.check(greedy(pos, idx, 1e-12L), "not the nearest neighbour chain", h)) return;
                k.states();
                k.outcome(mc::hash(str(idx)));
                k.sample(h);
            }};
}
template <typename Ty> mc::Suite index_suite(std::string tn, int n, int q, int th, double near = 0, double scale = 1) {
    return {fmt("index n=%d %s", n, tn.c_str()) + (near ? fmt(" near %g scale %g", near, scale) : ""), fmt("all ordered %d-tuples of distinct points out of %d (thorough %d) integer points", n, q, th) + (near ? ", each displaced so that distances nearly tie" : ""),
            [=](bool t) { uint64_t m = t ? th : q, r = 1; for (int i = 0; i < n; ++i) r *= m - i; return r; },
            [=](mc::Case& k, uint64_t i) {
                int m = k.thorough ? th : q;
                mc::Dec D(i);
                std::vector<int> av(m), sel;
                std::iota(av.begin(), av.end(), 0);
                for (int j = 0; j < n; ++j) { int x = D(m - j); sel.push_back(av[x]); av.erase(av.begin() + x); }
                typename Ty::StateVectorArray pos;
                using S = typename Ty::Scalar;
                for (int x : sel) pos.emplace_back((S)(scale * (P[x][0] + near * std::sin(3. * x + 1))), (S)(scale * (P[x][1] + near * std::cos(5. * x))), (S)(scale * (P[x][2] + near * std::sin(7. * x))));
                typename Ty::IdxArray idx;
                Chain::calc_chain_index(pos, idx);
                k.transitions();
                std::string h = "points " + str(sel) + "-> " + str(idx);
                if (!k.check(is_perm(idx, n), "not a permutation", h)) return;
                if (!k.check(greedy(pos, idx, 1e-12L), "not the nearest neighbour chain", h)) return;
                k.states();
                k.outcome(mc::hash(str(idx)));
                k.sample(h);
            }};
}
static std::vector<std::vector<size_t>> perms(int n) {
    std::vector<size_t> v(n);
    std::iota(v.begin(), v.end(), 0);
    std::vector<std::vector<size_t>> r;
    if (n > 6) {  // some orders only: as given, reversed, rotated, every k-th, from both ends
        r = {v, {v.rbegin(), v.rend()}};
        auto w = v;
        std::rotate(w.begin(), w.begin() + n / 3, w.end()), r.push_back(w);
        for (int s : {2, 3, 5}) { w.clear(); for (int o = 0; o < s; ++o) for (int j = o; j < n; j += s) w.push_back(j); r.push_back(w); }
        w.clear();
        for (int j = 0; j < n; ++j) w.push_back(j % 2 ? n - 1 - j / 2 : j / 2);
        r.push_back(w);
        w = v, std::swap(w[0], w[n - 1]), std::swap(w[n / 2], w[n / 2 + 1]), r.push_back(w);
        return r;
    }
    do r.push_back(v); while (std::next_permutation(v.begin(), v.end()));
    return r;
}
template <typename A, typename B> static bool same(A const& a, B const& b, LD tol, size_t n) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < n; ++i) {
        if (!(fabsl(ld(a[i].x) - ld(b[i].x)) <= tol && fabsl(ld(a[i].y) - ld(b[i].y)) <= tol && fabsl(ld(a[i].z) - ld(b[i].z)) <= tol)) return false;
    }
    return true;
}
// subtract the centre of mass
template <typename A, typename M> static A com(A a, M const& m) {
    using S = typename A::value_type::value_type;
    LD c[3] = {0, 0, 0}, t = 0;
    for (size_t i = 0; i < a.size(); ++i) t += m[i], c[0] += m[i] * ld(a[i].x), c[1] += m[i] * ld(a[i].y), c[2] += m[i] * ld(a[i].z);
    for (auto& v : a) v.x = (S)(typename raw_type<S>::type)(ld(v.x) - c[0] / t), v.y = (S)(typename raw_type<S>::type)(ld(v.y) - c[1] / t), v.z = (S)(typename raw_type<S>::type)(ld(v.z) - c[2] / t);
    return a;
}
template <typename Ty> mc::Suite transform_suite(std::string tn, int n) {
    auto ps = std::make_shared<std::vector<std::vector<size_t>>>(perms(n));
    return {fmt("transform n=%d %s", n, tn.c_str()), "all pairs of chain orders (permutations) x 2 coordinate sets",
            [=](bool) { return (uint64_t)2 * ps->size() * ps->size(); },
            [=](mc::Case& k, uint64_t i) {
                mc::Dec D(i);
                int set = D(2);
                auto& p = (*ps)[D(ps->size())];
                auto& q = (*ps)[D(ps->size())];
                typename Ty::IdxArray a(p.begin(), p.end()), b(q.begin(), q.end());
                using S = typename Ty::Scalar;
                typename Ty::StateVectorArray c, ch(n), back(n), ch2(n);
                typename Ty::ScalarArray m;
                for (int j = 0; j < n; ++j) {
                    double f = set ? 1.0 / 3 : 1;
                    if (n > 6) { auto q = many(8, 16, j); c.emplace_back((S)(q[0] * f), (S)(q[1] * f), (S)(q[2] * f)); }
                    else c.emplace_back((S)(P[j * 2 % 13][0] * f), (S)(P[j * 2 % 13][1] * f), (S)(P[j * 2 % 13][2] * f));
                    m.emplace_back((S)(1 + j));
                }
                LD tol = n > 6 ? 1e-11L : 1e-13L;
                auto ref = Chain::bijective_transfer ? c : com(c, m);
                Chain::calc_chain(c, ch, a);
                k.transitions();
                std::string h = str(p) + "-> " + str(q);
                // chain coordinates are the links between neighbours
                bool ok = true;
                for (int j = 0; j + 1 < n; ++j) ok = ok && fabsl(ld(ch[j].x) - (ld(c[a[j + 1]].x) - ld(c[a[j]].x))) < tol && fabsl(ld(ch[j].y) - (ld(c[a[j + 1]].y) - ld(c[a[j]].y))) < tol && fabsl(ld(ch[j].z) - (ld(c[a[j + 1]].z) - ld(c[a[j]].z))) < tol;
                if (!k.check(ok, "calc_chain links", h)) return;
                Chain::calc_cartesian(m, ch, back, a);
                if (!k.check(same(back, ref, tol * 100, n), "calc_cartesian(calc_chain)", h)) return;
                Chain::update_chain(ch, c, a, b);
                Chain::calc_chain(c, ch2, b);
                if (!k.check(same(ch, ch2, tol * 10, n), "update_chain", h)) return;
                Chain::calc_cartesian(m, ch, back, b);
                if (!k.check(same(back, ref, tol * 100, n), "calc_cartesian(update_chain)", h)) return;
                Chain::update_chain(ch, c, b, a);
                Chain::calc_chain(c, ch2, a);
                if (!k.check(same(ch, ch2, tol * 20, n), "update_chain back", h)) return;
                k.states(4);
                k.outcome(i);
                k.sample(h);
            }};
}
// chain systems through histories of operations
static const double V[4][3] = {{3, -1, 0.5}, {-4, 2, 1}, {1, 5, -3}, {-2, -6, 2}};
template <typename Sys> mc::Suite sys_suite(std::string tn, int n, int q, int th) {
    static const char* names[] = {"drift+", "drift-", "kick+", "kick-", "step", "post"};
    return {fmt("system %s n=%d", tn.c_str(), n), fmt("all sequences of <=%d (thorough %d) of drift(+-), kick(+-), pre/post step processing; 3 start configurations", q, th),
            [=](bool t) { return 3 * mc::nseq(6, t ? th : q); },
            [=](mc::Case& k, uint64_t i) {
                using Pt = typename Sys::Particle;
                using S = typename Sys::Scalar;
                int conf = i % 3;
                std::vector<Pt> v;
                for (int j = 0; j < n; ++j) {
                    auto x = n > 4 ? many(1 + 7 * conf, 16, j) : std::array<double, 3>{P[(conf * 4 + j * (conf + 1)) % 13][0], P[(conf * 4 + j * (conf + 1)) % 13][1], P[(conf * 4 + j * (conf + 1)) % 13][2]};
                    double f = n > 4 ? 1 + j / 8. : 1;
                    v.push_back(Pt((S)(1e-3 * (j + 1)), (S)x[0], (S)x[1], (S)x[2], (S)(f * V[j % 4][0]), (S)(f * V[(j + j / 4) % 4][1]), (S)(f * V[j % 4][2])));
                }
                Sys s((S)0, v);
                std::string h = fmt("conf %d", conf);
                size_t changes = 0;
                auto inv = [&](const char* where) {
                    if (!k.check(is_perm(s.index(), n), "system index", h)) return false;
                    typename std::decay_t<decltype(s.chain_pos())> cp(n), cv(n);
                    Chain::calc_chain(s.pos(), cp, s.index());
                    Chain::calc_chain(s.vel(), cv, s.index());
                    LD sp = 1, sv = 1;
                    for (int j = 0; j < n; ++j) sp = std::max({sp, fabsl(ld(s.pos(j).x)), fabsl(ld(s.pos(j).y)), fabsl(ld(s.pos(j).z))}), sv = std::max({sv, fabsl(ld(s.vel(j).x)), fabsl(ld(s.vel(j).y)), fabsl(ld(s.vel(j).z))});
                    bool ok = same(cp, s.chain_pos(), 1e-13L * sp * 20, n - 1) && same(cv, s.chain_vel(), 1e-13L * sv * 20, n - 1);
                    return k.check(ok, "chain and Cartesian coordinates disagree", h + " after " + where);
                };
                if (!inv("construction")) return;
                if (!k.check(greedy(s.pos(), s.index(), 1e-10L), "initial order", h)) return;
                s.pre_iter_process();
                for (int op : mc::seq(i / 3, 6)) {
                    h += std::string(" ") + names[op];
                    k.transitions();
                    // physical drift lengths large enough to reorder the chain
                    double sc = 1.0 / (double)s.step_scale();
                    if (op == 0) s.drift(0.7 / sc);
                    if (op == 1) s.drift(-1.3 / sc);
                    if (op == 2) s.kick(0.5 / sc);
                    if (op == 3) s.kick(-0.9 / sc);
                    if (op >= 4) {
                        auto pos = s.pos();
                        auto vel = s.vel();
                        auto old = str(s.index());
                        s.post_iter_process();
                        if (str(s.index()) != old) ++changes;
                        LD sp = 1, sv = 1;
                        for (int j = 0; j < n; ++j) sp = std::max({sp, fabsl(ld(pos[j].x)), fabsl(ld(pos[j].y)), fabsl(ld(pos[j].z))}), sv = std::max({sv, fabsl(ld(vel[j].x)), fabsl(ld(vel[j].y)), fabsl(ld(vel[j].z))});
                        if (!k.check(greedy(s.pos(), s.index(), 1e-10L), "order after the step", h + " index " + str(s.index()))) return;
                        if (Chain::bijective_transfer && !k.check(same(pos, s.pos(), 1e-13L * sp * 20, n) && same(vel, s.vel(), 1e-13L * sv * 20, n), "reordering moved particles", h)) return;
                        if (op == 4) s.pre_iter_process();
                    }
                    if (!inv(names[op])) return;
                    k.states();
                }
                k.outcome(mc::hash(fmt("%zu", changes) + str(s.index())));
                k.sample(h + fmt(" (%zu reorderings)", changes));
            }};
}
using F = DefaultForce;
using PN = force::Interactions<force::NewtonianGrav, force::PN1>;
template <typename T> using Pp = particles::PointParticles<Types<T>>;
int main(int c, char** v) {
    std::vector<mc::Suite> s;
    using D = Types<double>; using L = Types<long double>; using K = Types<double_k>;
    s.push_back(index_suite<D>("double", 2, 12, 14));
    s.push_back(index_suite<D>("double", 3, 12, 14));
    s.push_back(index_suite<D>("double", 4, 12, 14));
    s.push_back(index_suite<D>("double", 5, 12, 14));
    s.push_back(index_suite<D>("double", 6, 11, 14));
    s.push_back(index_suite<D>("double", 7, 7, 12));
    s.push_back(index_suite<D>("double", 8, 8, 10));
    s.push_back(index_suite<K>("double_k", 4, 12, 14));
    for (double near : {1e-5, 1e-9}) for (double sc : {1.0, 3e-9, 4e11}) for (int n : {3, 4, 5}) s.push_back(index_suite<D>("double", n, 9, 12, near, sc));
    s.push_back(index_suite<K>("double_k", 4, 9, 12, 1e-8, 1));
    s.push_back(index_suite<K>("double_k", 5, 8, 13));
    for (int n : {2, 3, 4, 5}) s.push_back(transform_suite<D>("double", n));
    s.push_back(transform_suite<K>("double_k", 4));
    s.push_back(transform_suite<L>("long double", 4));
    s.push_back(sys_suite<system::ChainSystem<Pp<double>, F>>("chain", 3, 6, 8));
    s.push_back(sys_suite<system::ChainSystem<Pp<double>, F>>("chain", 4, 6, 8));
    s.push_back(sys_suite<system::ChainSystem<Pp<double>, PN>>("chain+PN1", 4, 5, 7));
    s.push_back(sys_suite<system::ChainSystem<Pp<double_k>, F>>("chain double_k", 4, 5, 7));
    s.push_back(sys_suite<system::ARchainSystem<Pp<double>, F, system::ReguType::LogH>>("archain logH", 3, 5, 7));
    s.push_back(sys_suite<system::ARchainSystem<Pp<double>, F, system::ReguType::LogH>>("archain logH", 4, 6, 7));
    s.push_back(sys_suite<system::ARchainSystem<Pp<double>, F, system::ReguType::TTL>>("archain TTL", 4, 5, 7));
    s.push_back(sys_suite<system::ARchainSystem<Pp<double>, PN, system::ReguType::LogH>>("archain logH+PN1", 4, 5, 7));
    s.push_back(sys_suite<system::ARchainSystem<Pp<double_k>, F, system::ReguType::LogH>>("archain double_k", 4, 5, 7));
    s.push_back(large_suite<D>("double"));
    s.push_back(large_suite<K>("double_k"));
    for (int n : {9, 17, 40}) s.push_back(transform_suite<D>("double", n));
    s.push_back(sys_suite<system::ChainSystem<Pp<double>, F>>("chain", 17, 4, 5));
    s.push_back(sys_suite<system::ChainSystem<Pp<double>, F>>("chain", 66, 3, 4));
    s.push_back(sys_suite<system::ARchainSystem<Pp<double>, F, system::ReguType::LogH>>("archain logH", 17, 3, 4));
    s.push_back(sys_suite<system::ARchainSystem<Pp<double_k>, PN, system::ReguType::TTL>>("archain TTL double_k+PN1", 17, 3, 4));
    return mc::main(c, v, s);
}
