// S02: every sequence of drift/kick/step-processing operations on every particle system, compared with the published
// maps evaluated in long double on Cartesian coordinates.  -DGROUP selects the systems compiled.
#include "phys.hpp"
#ifndef GROUP
#define GROUP 0
#endif
template <typename Sys, typename Indep, typename Dep, system::ReguType R>
mc::Suite suite(std::string tn, int n, int q, int th) {
    constexpr bool chain = IsChain<Sys>::value, regu = IsRegu<Sys>::value;
    static const char* names[] = {"drift+", "drift-", "kick+", "kick-", "pre", "step", "derivative", "collect", "clear", "DRIFT"};
    return {fmt("%s n=%d", tn.c_str(), n),
            fmt("all sequences of <=%d (thorough %d) of drift(+-, short and long), kick(+-), pre_iter, end of step (post+pre), evaluate_general_derivative, collect_increment toggle, clear_increment; 3 start configurations", q, th),
            [=](bool t) { return 3 * mc::nseq(10, t ? th : q); },
            [=](mc::Case& k, uint64_t i) {
                using S = typename Sys::Scalar;
                using Arr = typename Sys::StateScalarArray;
                int conf = i % 3;
                Model<Indep, Dep, R, regu> m;
                std::vector<typename Sys::Particle> v;
                for (int j = 0; j < n; ++j) m.b.push_back(start(conf, j)), m.b.back().m *= conf == 1 && j == 1 && n > 2 ? 0 : 1, v.push_back(mkpoint<typename Sys::Particle>(m.b.back()));
                m.t = 0.25;
                m.init();
                Sys s((S)0.25, v);
                LD unit = regu && R != system::ReguType::None ? m.U() : 1;
                std::string h = fmt("conf %d:", conf);
                const LD tol = 2e-11L;
                auto idx = [&] {
                    if constexpr (chain) return &s.index();
                    else return (std::vector<size_t>*)nullptr;
                };
                auto diff = [&](auto const& y, std::vector<LD> const& r, std::string const& what) {
                    if (!k.check(y.size() == r.size(), tn + " length of " + what, h + fmt(" %zu instead of %zu", (size_t)y.size(), r.size()))) return false;
                    LD sc = 1;
                    for (auto e : r) sc = std::max(sc, fabsl(e));
                    for (size_t j = 0; j < r.size(); ++j)
                        if (!(fabsl(ld(y[j]) - r[j]) <= tol * sc)) {
                            size_t N3 = 3 * n;
                            const char* part = j == 0 ? "time" : j <= N3 ? "pos" : j <= 2 * N3 ? "vel" : m.has_dep && j <= 3 * N3 ? "aux_vel" : j == r.size() - 2 ? "omega" : "bindE";
                            k.fail(tn + " " + what + " " + part, h + fmt(" element %zu is %.15Lg, expected %.15Lg", j, ld(y[j]), r[j]));
                            return false;
                        }
                    return true;
                };
                std::vector<LD> inc(s.variable_number(), 0);
                bool collect = false;
                s.pre_iter_process();
                auto same = [&](const char* op) {
                    Arr y;
                    s.write_to_scalar_array(y);
                    if (!diff(y, m.state(idx()), "state")) return false;
                    for (int j = 0; j < n; ++j) {
                        V3 e = v3(s.pos(j)) - m.b[j].x, f = v3(s.vel(j)) - m.b[j].v;
                        if (!k.check(normp(e) <= tol * 20 && normp(f) <= tol * 20, tn + " Cartesian coordinates", h + fmt(" particle %d", j))) return false;
                    }
                    if (!k.check(fabsl(ld(s.time()) - m.t) <= tol, tn + " time", h)) return false;
                    if constexpr (regu)
                        if (!k.check(fabsl(ld(s.omega()) - m.omega) <= tol * 20 && fabsl(ld(s.bindE()) - m.B) <= tol * 20, tn + " regularisation variables", h)) return false;
                    return diff(s.increment(), inc, "increment");
                };
                if (!same("start")) return;
                for (int op : mc::seq(i / 3, 10)) {
                    h += std::string(" ") + names[op];
                    k.transitions();
                    LD hs = (op == 9 ? 1.3L : op & 1 ? -0.07L : 0.11L) * unit;
                    auto before = m.state(idx());
                    if (op <= 1 || op == 9) s.drift((S)hs), m.drift((LD)(S)hs);
                    else if (op <= 3) s.kick((S)hs), m.kick((LD)(S)hs);
                    else if (op == 4) s.pre_iter_process(), m.pre();
                    else if (op == 5) {
                        s.post_iter_process();
                        s.pre_iter_process();
                        m.pre();
                        s.clear_increment();
                        for (auto& e : inc) e = 0;
                    } else if (op == 6) {
                        Arr d;
                        s.evaluate_general_derivative(d);
                        if (!diff(d, m.derivative(idx()), "derivative")) return;
                        typename Sys::VectorArray a(n);
                        s.evaluate_acc(a);
                        Acc r = m.newt(), e = m.indep(), f = m.dep(m.vel());
                        for (int j = 0; j < n; ++j)
                            if (!k.check(normp(v3(a[j]) - (r[j] + e[j] + f[j])) <= tol * 10, tn + " evaluate_acc", h)) return;
                    } else if (op == 7) s.collect_increment(collect = !collect);
                    else {
                        s.clear_increment();
                        for (auto& e : inc) e = 0;
                    }
                    if ((op <= 3 || op == 9) && collect) {
                        auto after = m.state(idx());
                        for (size_t j = 0; j < inc.size(); ++j) inc[j] += after[j] - before[j];
                    }
                    if (!same(names[op])) return;
                    k.states();
                }
                k.outcome(mc::Hasher()(m.t)(m.b[0].x.x)(m.omega).h);
                k.sample(h);
            }};
}
using system::ReguType;
template <typename T> using Pp = particles::PointParticles<Types<T>>;
using Nw = force::NewtonianGrav;
template <typename P, typename F, typename I, typename D> void systems(std::vector<mc::Suite>& s, std::string f, int n, int q, int th) {
    s.push_back(suite<system::SimpleSystem<P, F>, I, D, ReguType::None>("Simple" + f, n, q, th));
    s.push_back(suite<system::ChainSystem<P, F>, I, D, ReguType::None>("Chain" + f, n, q, th));
    s.push_back(suite<system::RegularizedSystem<P, F, ReguType::LogH>, I, D, ReguType::LogH>("Regu LogH" + f, n, q, th));
    s.push_back(suite<system::ARchainSystem<P, F, ReguType::LogH>, I, D, ReguType::LogH>("ARchain LogH" + f, n, q, th));
    s.push_back(suite<system::RegularizedSystem<P, F, ReguType::TTL>, I, D, ReguType::TTL>("Regu TTL" + f, n, q, th));
    s.push_back(suite<system::ARchainSystem<P, F, ReguType::TTL>, I, D, ReguType::TTL>("ARchain TTL" + f, n, q, th));
    s.push_back(suite<system::RegularizedSystem<P, F, ReguType::None>, I, D, ReguType::None>("Regu None" + f, n, q, th));
    s.push_back(suite<system::ARchainSystem<P, F, ReguType::None>, I, D, ReguType::None>("ARchain None" + f, n, q, th));
}
int main(int c, char** v) {
    std::vector<mc::Suite> s;
    auto all = [&](auto p, std::string t, int q, int th, int nmax) {
        using P = decltype(p);
        for (int n : {2, 3, 4, 5, 17, 36}) {
            if (n > nmax && n < 6) continue;
            if (n > 20 && nmax < 5) continue;
            int dq = n > 5 ? n > 20 ? 1 : 2 : n == 3 ? q : n == 5 ? q - 2 : q - 1, dt = n > 5 ? 3 : n == 5 ? th - 1 : th;
#if GROUP % 4 == 0
            systems<P, force::Interactions<Nw>, RefNone, RefNone>(s, " Newton" + t, n, dq, dt);
#elif GROUP % 4 == 1
            systems<P, force::Interactions<Nw, Harm>, Harm, RefNone>(s, " Newton+ext" + t, n, dq, dt);
#elif GROUP % 4 == 2
            systems<P, force::Interactions<Nw, Mag>, RefNone, Mag>(s, " Newton+vel" + t, n, dq, dt);
#else
            systems<P, force::Interactions<Nw, Harm, Mag>, Harm, Mag>(s, " Newton+ext+vel" + t, n, dq, dt);
#endif
        }
    };
#if GROUP < 4
    all(Pp<double>{}, "", 5, 6, 5);
#else
    all(Pp<double_k>{}, " double_k", 4, 5, 4);
#endif
    return mc::main(c, v, s);
}
