// R04: library writers record every state faithfully
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <map>
#include <memory>
#include "spaceHub.hpp"
#include "mc.hpp"
using namespace hub;
using namespace hub::particles;
using mc::fmt;
typedef long double LD;
template <typename R> static LD ld(R const& r) { return (LD)(typename raw_type<R>::type)r; }
static std::string scratch() {
    static std::string d;
    static pid_t p = 0;
    if (p != getpid()) {
        p = getpid();
        char t[] = "/tmp/r04XXXXXX";
        d = mkdtemp(t);
    }
    return d;
}
static std::vector<std::string> lines(std::string const& f) {
    std::ifstream i(f);
    std::vector<std::string> r;
    std::string l;
    while (std::getline(i, l)) if (!l.empty()) r.push_back(l);
    return r;
}
static bool nums(std::string const& l, std::vector<LD>& o) {
    o.clear();
    std::stringstream ss(l);
    std::string t;
    while (std::getline(ss, t, ',')) {
        char* e;
        o.push_back(strtold(t.c_str(), &e));
        if (*e || t.empty()) return false;
    }
    return true;
}
// digits printed: 17 significant
static bool close16(LD a, LD b) { return a == b || fabsl(a - b) <= 2e-16L * fabsl(b); }

// extra attributes, in column order by name
template <typename Sys> static LD col(Sys const& s, size_t i, std::string const& c) {
    if (c == "time") return ld(s.time());
    if (c == "id") return (LD)s.idn(i);
    if (c == "mass") return (LD)s.mass(i);
    if (c == "px") return ld(s.pos(i).x);
    if (c == "py") return ld(s.pos(i).y);
    if (c == "pz") return ld(s.pos(i).z);
    if (c == "vx") return ld(s.vel(i).x);
    if (c == "vy") return ld(s.vel(i).y);
    if (c == "vz") return ld(s.vel(i).z);
    if constexpr (MC_HAS(const Sys, q.radius(0))) if (c == "radius") return (LD)s.radius(i);
    if constexpr (MC_HAS(const Sys, q.tide_lag_time(0))) { if (c == "k_AM") return (LD)s.tide_apsidal_const(i); if (c == "tau_lag") return (LD)s.tide_lag_time(i); }
    if constexpr (MC_HAS(const Sys, q.local_cs(0))) { if (c == "sub_sonic_c") return (LD)s.sub_sonic_c(i); if (c == "local_cs") return (LD)s.local_cs(i); }
    return NAN;
}
template <typename Sys> static std::vector<std::string> columns() {
    std::vector<std::string> c{"time", "id", "mass"};
    if constexpr (MC_HAS(const Sys, q.radius(0))) c.push_back("radius");
    if constexpr (MC_HAS(const Sys, q.tide_lag_time(0))) c.push_back("k_AM"), c.push_back("tau_lag");
    for (auto x : {"px", "py", "pz", "vx", "vy", "vz"}) c.push_back(x);
    if constexpr (MC_HAS(const Sys, q.local_cs(0))) c.push_back("sub_sonic_c"), c.push_back("local_cs");
    return c;
}
static std::string join(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ",") + x; return s; }
template <typename Sys> static void energies(Sys const& s, LD& T, LD& U) {
    T = U = 0;
    size_t n = s.number();
    for (size_t i = 0; i < n; ++i) {
        T += 0.5L * (LD)s.mass(i) * (ld(s.vel(i).x) * ld(s.vel(i).x) + ld(s.vel(i).y) * ld(s.vel(i).y) + ld(s.vel(i).z) * ld(s.vel(i).z));
        for (size_t j = i + 1; j < n; ++j) {
            LD x = ld(s.pos(i).x) - ld(s.pos(j).x), y = ld(s.pos(i).y) - ld(s.pos(j).y), z = ld(s.pos(i).z) - ld(s.pos(j).z);
            U -= (LD)consts::G * (LD)s.mass(i) * (LD)s.mass(j) / sqrtl(x * x + y * y + z * z);
        }
    }
}
template <typename Sys> struct regu { static constexpr bool value = MC_HAS(Sys, q.regu_type) && MC_HAS(Sys, q.bindE()); };

template <typename P> static std::vector<P> parts(int which, int many = 0) {
    using V = typename P::Vector;
    using S = typename P::Scalar;
    std::vector<P> r;
    int n = many ? many + which : which == 0 ? 3 : 2;
    for (int i = 0; i < n; ++i) {
        S k = i + 1 + 10 * which;
        V p(S(1.1) * i + S(0.1), S(-0.7) * i * i, S(0.3) * k), v(S(0.11) * (i == 1), S(-0.21) * i, S(1) / S(3) / k);
        S m = S(1) / k + S(0.125);
        if constexpr (MC_HAS(P, q.tide_lag_time)) r.push_back(P(m, k / S(7), k / S(11), k / S(13), p, v));
        else if constexpr (MC_HAS(P, q.radius)) r.push_back(P(m, k / S(7), p, v));
        else if constexpr (MC_HAS(P, q.local_cs)) r.push_back(P(m, k / S(7), k / S(11), p, v));
        else r.push_back(P(m, p, v));
    }
    return r;
}
// model of one file
struct File {
    std::string name;
    std::vector<std::string> exp;              // text lines expected verbatim ("" = numeric row)
    std::vector<std::vector<LD>> row;
    std::vector<int> cls;                      // 0 state row, 1 relative error, 2 log error
};
struct EState { bool set = false; LD E0 = 0; };

static const int NOP = 14;
template <typename Sys> struct World {
    using P = typename Sys::Particle;
    std::vector<std::unique_ptr<Sys>> s;
    std::vector<File> f;
    std::vector<callback::DefaultWriter> d;
    std::vector<int> df;
    std::vector<callback::EnergyErrWriter> e;
    std::vector<int> ef;
    std::vector<EState> es;
    std::vector<callback::DefaultWriter> spare_d;  // more copies, as argument lists make them; never called
    std::vector<callback::EnergyErrWriter> spare_e;
    World(int many = 0) {
        for (int w = 0; w < 2; ++w) s.push_back(std::make_unique<Sys>((typename Sys::Scalar)(w ? 0.75 : 0.0), parts<P>(w, many)));
        for (size_t j = 0; j < s[1]->number(); ++j) s[1]->idn()[j] = 40 - 7 * (j % 5) + 100 * (j / 5);  // ids a user has assigned
        // two default writers on two files + a copy of the first; the same for the energy writers
        for (int i = 0; i < 4; ++i) f.push_back({scratch() + fmt("/f%d.txt", i), {}, {}, {}});
        d.emplace_back(f[0].name), df.push_back(0);
        d.emplace_back(f[1].name), df.push_back(1);
        d.push_back(d[0]), df.push_back(0);
        e.emplace_back(f[2].name), ef.push_back(2);
        e.emplace_back(f[3].name), ef.push_back(3);
        e.push_back(e[0]), ef.push_back(2);
        es.resize(3);
        spare_d.assign(2, d[0]), spare_e.assign(2, e[0]);
    }
    ~World() { for (auto& x : f) unlink(x.name.c_str()); }
    void text(int file, std::string const& t) { f[file].exp.push_back(t); f[file].row.emplace_back(); f[file].cls.push_back(-1); }
    void num(int file, std::vector<LD> r, int cls) { f[file].exp.push_back(""); f[file].row.push_back(r); f[file].cls.push_back(cls); }
    void dwrite(int w, int i) {
        Sys& p = *s[i];
        int k = df[w];
        if (f[k].exp.empty()) text(k, join(columns<Sys>()));
        for (size_t j = 0; j < p.number(); ++j) {
            std::vector<LD> r;
            for (auto& c : columns<Sys>()) r.push_back(col(p, j, c));
            num(k, r, 0);
        }
        d[w](p, 0.1);
    }
    void ewrite(int w, int i) {
        Sys& p = *s[i];
        LD T, U;
        energies(p, T, U);
        if (!es[w].set) es[w].set = true, es[w].E0 = T + U;
        if constexpr (regu<Sys>::value) num(ef[w], {ld(p.time()), fabsl((T + ld(p.bindE())) / U), 1 + fabsl(T / U)}, 2);
        else num(ef[w], {ld(p.time()), fabsl((T + U - es[w].E0) / es[w].E0), (T - U) / fabsl(es[w].E0)}, 1);
        e[w](p, 0.1);
    }
    std::string apply(int op) {
        if (op < 6) { dwrite(op % 3, op / 3); return fmt("d%d(s%d)", op % 3, op / 3); }
        if (op < 12) { op -= 6; ewrite(op % 3, op / 3); return fmt("e%d(s%d)", op % 3, op / 3); }
        if (op == 12) {
            for (int i = 0; i < 2; ++i) { s[i]->pre_iter_process(); s[i]->drift(0.01 + 0.02 * i); s[i]->kick(0.4 - 0.7 * i); s[i]->drift(0.01); s[i]->post_iter_process(); }
            return "evolve";
        }
        for (auto w : {0, 1}) if (!f[df[w]].exp.empty()) { d[w] << "# note\n"; text(df[w], "# note"); }
        e[1] << "# note\n";
        text(3, "# note");
        return "note";
    }
    void verify(mc::Case& k, std::string const& h) {
        d.clear();
        e.clear(), spare_d.clear(), spare_e.clear();  // closes the files
        for (auto& x : f) {
            auto l = lines(x.name);
            if (!k.check(l.size() == x.exp.size(), "number of lines", h + fmt(": %zu lines, expected %zu", l.size(), x.exp.size()))) return;
            for (size_t i = 0; i < l.size(); ++i) {
                if (x.cls[i] < 0) { if (!k.check(l[i] == x.exp[i], "text line", h + ": " + l[i])) return; continue; }
                std::vector<LD> v;
                if (!k.check(nums(l[i], v), "not a row", h + ": " + l[i])) return;
                auto& r = x.row[i];
                if (x.cls[i] == 0) {
                    bool ok = v.size() == r.size();
                    for (size_t j = 0; ok && j < r.size(); ++j) ok = close16(v[j], r[j]);
                    if (!k.check(ok, "state row", h + ": " + l[i])) return;
                } else {
                    if (!k.check(v.size() == 2 && close16(v[0], r[0]), "energy row time", h + ": " + l[i])) return;
                    LD got = x.cls[i] == 2 ? expl(v[1]) : v[1];
                    if (!k.check(fabsl(got - r[1]) <= 1e-13L * r[2] + 1e-14L * fabsl(r[1]), "energy error", h + fmt(": %.17Lg expected %.17Lg", got, r[1]))) return;
                }
                k.states();
            }
        }
    }
};
template <typename Sys> mc::Suite suite(std::string n, unsigned q, unsigned th, int many = 0) {
    return {n, fmt("all sequences of <=%u (thorough %u) of 14 operations: 3 DefaultWriters and 3 EnergyErrWriters (one a copy sharing the file) x 2 systems, evolve, free text", q, th),
            [=](bool t) { return mc::nseq(NOP, t ? th : q); },
            [=](mc::Case& k, uint64_t i) {
                std::string h;
                World<Sys> w(many);
                for (int op : mc::seq(i, NOP)) h += w.apply(op) + " ", k.transitions();
                w.verify(k, h);
                k.outcome(mc::hash(h));
                k.sample(h);
            }};
}
// writers attached to real simulations, run one after the other
template <typename Sim> mc::Suite sims(std::string n) {
    using PS = typename Sim::ParticleSystem;
    return {n, "4 slicings x 2 writer sharings x 2 configurations x 3 end times, two simulations in sequence, each run twice",
            [](bool) { return (uint64_t)4 * 2 * 2 * 3; },
            [](mc::Case& k, uint64_t i) {
                mc::Dec D(i);
                int sl = D(4), share = D(2), conf = D(2), end = D(3);
                using P = typename Sim::Particle;
                std::string h = fmt("slice %d share %d conf %d end %d", sl, share, conf, end);
                std::string f0 = scratch() + "/a.txt", f1 = scratch() + "/b.txt", g0 = scratch() + "/ea.txt", g1 = scratch() + "/eb.txt";
                struct Rec { std::vector<std::vector<LD>> rows; LD t, T, U, B; };
                std::vector<std::vector<Rec>> rec(2);
                {
                    auto w0 = std::make_unique<callback::DefaultWriter>(f0);
                    auto w1 = std::make_unique<callback::DefaultWriter>(f1);
                    auto e0 = std::make_unique<callback::EnergyErrWriter>(g0);
                    auto e1 = std::make_unique<callback::EnergyErrWriter>(g1);
                    for (int r = 0; r < 2; ++r) {
                        Sim sim{(typename Sim::Scalar)(r * 0.5), parts<P>(conf ? r : 1 - r)};
                        auto obs = [&rec, r](PS& p, typename PS::Scalar) {
                            Rec x;
                            for (size_t j = 0; j < p.number(); ++j) {
                                std::vector<LD> v;
                                for (auto& c : columns<std::decay_t<decltype(p)>>()) v.push_back(col(p, j, c));
                                x.rows.push_back(v);
                            }
                            energies(p, x.T, x.U);
                            if constexpr (regu<std::decay_t<decltype(p)>>::value) x.B = ld(p.bindE());
                            x.t = ld(p.time());
                            rec[r].push_back(x);
                        };
                        typename Sim::RunArgs args;
                        auto& w = share || r == 0 ? *w0 : *w1;
                        auto& e = r == 0 ? *e0 : *e1;
                        if (sl == 0) args.add_operation(w), args.add_operation(e), args.add_operation(obs);
                        else if (sl == 1) args.add_operation(callback::StepSlice(w, 2)), args.add_operation(callback::StepSlice(e, 2)), args.add_operation(callback::StepSlice(obs, 2));
                        else if (sl == 2) args.add_start_point_operation(w), args.add_start_point_operation(e), args.add_start_point_operation(obs);
                        else args.add_stop_point_operation(w), args.add_stop_point_operation(e), args.add_stop_point_operation(obs);
                        args.add_stop_condition((typename Sim::Scalar)(r * 0.5 + 0.2 * (end + 1)));
                        args.rtol = 1e-8;
                        args.step_size = 0.05;
                        sim.run(args);
                    }
                }
                for (int r = 0; r < 2; ++r) {
                    // state files
                    auto l = lines(share ? f0 : r ? f1 : f0);
                    size_t skip = 1;
                    if (share && r == 1) for (auto& x : rec[0]) skip += x.rows.size();
                    size_t want = skip;
                    for (auto& x : rec[r]) want += x.rows.size();
                    if (share && r == 0) for (auto& x : rec[1]) want += x.rows.size();
                    if (!k.check(l.size() == want && l[0] == join(columns<PS>()), "simulation state file", h + fmt(" %zu lines expected %zu", l.size(), want))) return;
                    size_t p = skip;
                    for (auto& x : rec[r])
                        for (auto& row : x.rows) {
                            std::vector<LD> v;
                            bool ok = nums(l[p++], v) && v.size() == row.size();
                            for (size_t j = 0; ok && j < row.size(); ++j) ok = close16(v[j], row[j]);
                            if (!k.check(ok, "simulation state row", h + ": " + l[p - 1])) return;
                            k.states();
                        }
                    auto g = lines(r ? g1 : g0);
                    if (!k.check(g.size() == rec[r].size(), "simulation energy file", h)) return;
                    for (size_t j = 0; j < g.size(); ++j) {
                        std::vector<LD> v;
                        auto& x = rec[r][j];
                        bool ok = nums(g[j], v) && v.size() == 2 && close16(v[0], x.t);
                        if (ok) {
                            LD E0 = rec[r][0].T + rec[r][0].U;
                            if constexpr (regu<PS>::value) ok = fabsl(expl(v[1]) - fabsl((x.T + x.B) / x.U)) <= 1e-12L;
                            else ok = fabsl(v[1] - fabsl((x.T + x.U - E0) / E0)) <= 1e-12L * (1 + (x.T - x.U) / fabsl(E0));
                        }
                        if (!k.check(ok, "simulation energy row", h + ": " + g[j])) return;
                        k.transitions();
                    }
                }
                for (auto& x : {f0, f1, g0, g1}) unlink(x.c_str());
                k.outcome(i);
                k.sample(h);
            }};
}
using F = DefaultForce;
template <typename P> using LogH = system::RegularizedSystem<P, F, system::ReguType::LogH>;
template <typename P> using TTL = system::RegularizedSystem<P, F, system::ReguType::TTL>;
int main(int c, char** v) {
    std::vector<mc::Suite> s;
    s.push_back(suite<system::SimpleSystem<PointParticles<Types<double>>, F>>("simple/point", 4, 5));
    s.push_back(suite<system::SimpleSystem<SizeParticles<Types<double>>, F>>("simple/size", 3, 4));
    s.push_back(suite<system::SimpleSystem<TideParticles<Types<double>>, F>>("simple/tide", 3, 4));
    s.push_back(suite<system::SimpleSystem<DragParticles<Types<double>>, F>>("simple/drag", 3, 4));
    s.push_back(suite<system::ChainSystem<SizeParticles<Types<double>>, F>>("chain/size", 3, 4));
    s.push_back(suite<LogH<TideParticles<Types<double>>>>("regu logH/tide", 4, 5));
    s.push_back(suite<TTL<PointParticles<Types<double>>>>("regu ttl/point", 3, 4));
    s.push_back(suite<system::ARchainSystem<PointParticles<Types<double>>, F, system::ReguType::LogH>>("archain/point", 3, 5));
    s.push_back(suite<system::SimpleSystem<PointParticles<Types<double_k>>, F>>("simple/point/double_k", 3, 4));
    s.push_back(suite<system::SimpleSystem<SizeParticles<Types<double>>, F>>("simple/size, 17 and 18 particles", 2, 3, 17));
    s.push_back(suite<system::ChainSystem<PointParticles<Types<double>>, F>>("chain/point, 33 and 34 particles", 2, 3, 33));
    s.push_back(suite<TTL<TideParticles<Types<double>>>>("regu ttl/tide, 17 and 18 particles", 2, 3, 17));
    s.push_back(suite<system::ARchainSystem<PointParticles<Types<double>>, F, system::ReguType::LogH>>("archain/point, 17 and 18 particles", 2, 3, 17));
    s.push_back(suite<system::SimpleSystem<DragParticles<Types<double>>, F>>("simple/drag, 300 and 301 particles", 1, 2, 300));
    s.push_back(sims<methods::BS<F, SizeParticles>>("sims BS size"));
    s.push_back(sims<methods::AR_Sym4<F, TideParticles>>("sims AR_Sym4 tide"));
    s.push_back(sims<methods::AR_Chain<>>("sims AR_Chain"));
    s.push_back(sims<methods::Const_Sym2_Plus<>>("sims Const_Sym2_Plus"));
    int r = mc::main(c, v, s);
    return r;
}
