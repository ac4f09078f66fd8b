// S01: all histories of evolving, saving (two slots) and restoring a particle system.  A restored system must be in
// the saved state and continue exactly like a copy of the system taken when the state was saved.
#include <sys/wait.h>
#include "phys.hpp"
#ifndef GROUP
#define GROUP 0
#endif
template <typename T> bool ident(T const& p, T const& q) {
    if constexpr (MC_HAS(T, q.value) && MC_HAS(T, q.err)) return p.value == q.value && p.err == q.err;
    else return p == q;
}
template <typename Sys>
mc::Suite suite(std::string tn, int n, int q, int th) {
    constexpr bool chain = IsChain<Sys>::value, regu = IsRegu<Sys>::value, dep = Sys::Interaction::ext_vel_dep;
    static const char* names[] = {"drift+", "drift-", "kick+", "kick-", "pre", "step", "saveA", "saveB", "restA", "restB"};
    return {fmt("%s n=%d", tn.c_str(), n),
            fmt("all sequences of <=%d (thorough %d) of drift(+-), kick(+-), pre_iter, end of step, save to / restore from 2 slots; 3 start configurations", q, th),
            [=](bool t) { return 3 * mc::nseq(10, t ? th : q); },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                using Arr = typename Sys::StateScalarArray;
                int conf = i % 3;
                std::vector<typename Sys::Particle> v;
                for (int j = 0; j < n; ++j) v.push_back(mkpoint<typename Sys::Particle>(start(conf, j)));
                Sys s((S)0.25, v);
                double unit = 1;
                if constexpr (regu) if (Sys::regu_type != system::ReguType::None) unit = (double)ld(s.omega());
                struct Slot {
                    Arr y;
                    Sys copy;
                    bool valid = false;
                };
                Sys twin = s;
                Slot slot[2] = {{Arr{}, s, false}, {Arr{}, s, false}};
                std::string h = fmt("conf %d:", conf);
                auto near = [&](LD p, LD q) { return fabsl(p - q) <= 4e-14L * std::max((LD)1, fabsl(q)); };
                auto same = [&](Sys& s, Sys& t, std::string where) {
                    bool ok = near(ld(s.time()), ld(t.time()));
                    if (!k.check(ok, tn + " time", h + where)) return false;
                    for (int j = 0; j < n; ++j) {
                        V3 a = v3(s.pos(j)), b = v3(t.pos(j)), c = v3(s.vel(j)), d = v3(t.vel(j));
                        if (!k.check(near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z), tn + " position", h + where)) return false;
                        if (!k.check(near(c.x, d.x) && near(c.y, d.y) && near(c.z, d.z), tn + " velocity", h + where)) return false;
                    }
                    if constexpr (regu)
                        if (!k.check(near(ld(s.omega()), ld(t.omega())) && near(ld(s.bindE()), ld(t.bindE())), tn + " regularisation variables", h + where)) return false;
                    if constexpr (chain) {
                        if (!k.check(s.index() == t.index(), tn + " chain order", h + where)) return false;
                        for (int j = 0; j + 1 < n; ++j) {
                            V3 a = v3(s.chain_pos(j)), b = v3(t.chain_pos(j)), c = v3(s.chain_vel(j)), d = v3(t.chain_vel(j));
                            if (!k.check(near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z) && near(c.x, d.x) && near(c.y, d.y) && near(c.z, d.z), tn + " chain coordinates", h + where)) return false;
                        }
                    }
                    Arr y, z;
                    s.write_to_scalar_array(y), t.write_to_scalar_array(z);
                    if (!k.check(y.size() == s.variable_number() && z.size() == y.size(), tn + " array length", h + where)) return false;
                    for (size_t j = 0; j < y.size(); ++j)
                        if (!k.check(near(ld(y[j]), ld(z[j])), tn + " state array", h + where + fmt(" element %zu", j))) return false;
                    return true;
                };
                // layout: offsets delimit the parts and agree with the accessors
                {
                    Arr y;
                    s.write_to_scalar_array(y);
                    size_t N = n;
                    bool ok = s.time_offset() == 0 && s.pos_offset() == 1 && s.vel_offset() == 1 + 3 * N && s.variable_number() == 1 + 3 * N * (2 + dep) + 2 * regu && y.size() == s.variable_number();
                    if (dep) ok = ok && s.auxi_vel_offset() == 1 + 6 * N;
                    if constexpr (regu) ok = ok && s.omega_offset() == 1 + 3 * N * (2 + dep) && s.bindE_offset() == s.omega_offset() + 1;
                    if (!k.check(ok, tn + " layout", h)) return;
                    auto at = [&](size_t o) { return V3{ld(y[o]), ld(y[o + 1]), ld(y[o + 2])}; };
                    ok = ident(y[0], s.time());
                    for (size_t j = 0; j < N; ++j) {
                        V3 p = at(s.pos_offset() + 3 * j), w = at(s.vel_offset() + 3 * j), e, f;
                        if constexpr (chain) {
                            e = j + 1 < N ? v3(s.chain_pos(j)) : v3(s.pos(s.index()[0]));
                            f = j + 1 < N ? v3(s.chain_vel(j)) : v3(s.vel(s.index()[0]));
                        } else e = v3(s.pos(j)), f = v3(s.vel(j));
                        ok = ok && normp(p - e) < 1e-14L && normp(w - f) < 1e-14L;
                    }
                    if constexpr (regu) ok = ok && ident(y[s.omega_offset()], s.omega()) && ident(y[s.bindE_offset()], s.bindE());
                    if (!k.check(ok, tn + " layout agrees with the accessors", h)) return;
                }
                s.pre_iter_process(), twin.pre_iter_process();
                for (int op : mc::seq(i / 3, 10)) {
                    h += std::string(" ") + names[op];
                    k.transitions();
                    S hs = (S)((op & 1 ? -0.23 : 0.31) * unit);
                    if (op <= 1) s.drift(hs), twin.drift(hs);
                    else if (op <= 3) s.kick(hs), twin.kick(hs);
                    else if (op == 4) s.pre_iter_process(), twin.pre_iter_process();
                    else if (op == 5) {
                        bool moved = false;
                        if constexpr (chain) {
                            auto old = s.index();
                            s.post_iter_process();
                            moved = !(s.index() == old);
                        } else s.post_iter_process();
                        twin.post_iter_process();
                        s.pre_iter_process(), twin.pre_iter_process();
                        if (moved) slot[0].valid = slot[1].valid = false;
                    } else if (op <= 7) {
                        auto& L = slot[op - 6];
                        L.y.clear();
                        for (int e = 0; e < op - 6 + 1; ++e) s.write_to_scalar_array(L.y);  // saving twice is saving once
                        L.copy = s;
                        L.valid = true;
                    } else {
                        auto& L = slot[op - 8];
                        if (!L.valid) return;  // nothing saved: same history without this operation is explored elsewhere
                        s.read_from_scalar_array(L.y);
                        Arr y;
                        s.write_to_scalar_array(y);
                        if (!k.check(y.size() == L.y.size(), tn + " array length", h)) return;
                        for (size_t j = 0; j < y.size(); ++j)
                            if (!k.check(ident(y[j], L.y[j]), tn + " restored array differs from the saved one", h + fmt(" element %zu", j))) return;
                        twin = L.copy;
                    }
                    if (!same(s, twin, "")) return;
                    k.states();
                }
                // the restored state continues like the original one
                for (int r = 0; r < 2; ++r) {
                    s.drift((S)(0.05 * unit)), twin.drift((S)(0.05 * unit));
                    s.kick((S)(0.08 * unit)), twin.kick((S)(0.08 * unit));
                    Arr y, z;
                    s.evaluate_general_derivative(y), twin.evaluate_general_derivative(z);
                    for (size_t j = 0; j < y.size(); ++j)
                        if (!k.check(fabsl(ld(y[j]) - ld(z[j])) <= 1e-12L * std::max((LD)1, fabsl(ld(z[j]))), tn + " derivative after", h)) return;
                    if (!same(s, twin, " + continuation")) return;
                }
                k.outcome(mc::Hasher()((double)ld(s.pos(0).x))((double)ld(s.vel(0).y))((double)ld(s.time())).h);
                k.sample(h);
            }};
}
// arrays of another length must not be accepted
template <typename Sys>
mc::Suite badlen(std::string tn) {
    return {tn + " wrong length", "arrays of every length 0..2*variable_number, n=2..4", [](bool) { return (uint64_t)3 * 64; },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                int n = 2 + i % 3;
                size_t len = i / 3;
                std::vector<typename Sys::Particle> v;
                for (int j = 0; j < n; ++j) v.push_back(mkpoint<typename Sys::Particle>(start(0, j)));
                Sys s((S)0, v);
                if (len > 2 * s.variable_number()) return;
                bool ok = len == s.variable_number();
                fflush(nullptr);
                pid_t p = fork();
                if (p == 0) {
                    typename Sys::StateScalarArray y(len);
                    for (size_t j = 0; j < len; ++j) y[j] = (S)(0.5 + j);
                    s.read_from_scalar_array(y);
                    _exit(77);
                }
                int st;
                waitpid(p, &st, 0);
                bool accepted = WIFEXITED(st) && WEXITSTATUS(st) == 77;
                k.check(accepted == ok, tn + " length check", fmt("n=%d length %zu %s", n, len, accepted ? "accepted" : "rejected"));
                k.states();
                k.transitions();
                k.outcome(accepted);
            }};
}
using system::ReguType;
template <typename T> using Pp = particles::PointParticles<Types<T>>;
using Nw = force::NewtonianGrav;
template <typename P, typename F> void systems(std::vector<mc::Suite>& s, std::string f, int n, int q, int th) {
    s.push_back(suite<system::SimpleSystem<P, F>>("Simple" + f, n, q, th));
    s.push_back(suite<system::ChainSystem<P, F>>("Chain" + f, n, q, th));
    s.push_back(suite<system::RegularizedSystem<P, F, ReguType::LogH>>("Regu LogH" + f, n, q, th));
    s.push_back(suite<system::ARchainSystem<P, F, ReguType::LogH>>("ARchain LogH" + f, n, q, th));
    s.push_back(suite<system::RegularizedSystem<P, F, ReguType::TTL>>("Regu TTL" + f, n, q, th));
    s.push_back(suite<system::ARchainSystem<P, F, ReguType::TTL>>("ARchain TTL" + f, n, q, th));
}
template <typename P, typename F> void bad(std::vector<mc::Suite>& s, std::string f) {
    s.push_back(badlen<system::SimpleSystem<P, F>>("Simple" + f));
    s.push_back(badlen<system::ChainSystem<P, F>>("Chain" + f));
    s.push_back(badlen<system::RegularizedSystem<P, F, ReguType::LogH>>("Regu LogH" + f));
    s.push_back(badlen<system::ARchainSystem<P, F, ReguType::LogH>>("ARchain LogH" + f));
}
int main(int c, char** v) {
    std::vector<mc::Suite> s;
    using F0 = force::Interactions<Nw>;
    using F3 = force::Interactions<Nw, Harm, Mag>;
#if GROUP == 0
    for (int n : {2, 3, 4, 5, 17, 36}) systems<Pp<double>, F0>(s, " Newton", n, n > 5 ? n > 20 ? 2 : 3 : n == 3 ? 5 : 4, n > 5 ? 3 : 6);
    bad<Pp<double>, F0>(s, " Newton");
#elif GROUP == 1
    for (int n : {2, 3, 4, 5, 17, 36}) systems<Pp<double>, F3>(s, " Newton+ext+vel", n, n > 5 ? n > 20 ? 2 : 3 : n == 3 ? 5 : 4, n > 5 ? 3 : 6);
    bad<Pp<double>, F3>(s, " Newton+ext+vel");
#elif GROUP == 2
    for (int n : {2, 4, 17}) systems<Pp<double_k>, F0>(s, " Newton double_k", n, n > 5 ? 3 : 4, n > 5 ? 3 : 5);
    for (int n : {2, 4, 17}) systems<Pp<double_k>, F3>(s, " Newton+ext+vel double_k", n, n > 5 ? 3 : 4, n > 5 ? 3 : 5);
#else
    for (int n : {2, 4, 17}) systems<Pp<long double>, F0>(s, " Newton long double", n, n > 5 ? 3 : 4, n > 5 ? 3 : 5);
    for (int n : {2, 4, 17}) systems<Pp<long double>, F3>(s, " Newton+ext+vel long double", n, n > 5 ? 3 : 4, n > 5 ? 3 : 5);
#endif
    return mc::main(c, v, s);
}
