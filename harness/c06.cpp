// C06: simulations in different threads, one after the other or nested do not influence each other
#include <fstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "mcrt.hpp"
#include "spaceHub.hpp"
#include "interaction/static-gas-drag.hpp"
#ifndef GROUP
#define GROUP 0
#endif
using namespace hub;
using mcrt::fail;
static std::string S(long x) { return std::to_string(x); }
// ---- a force that yields inside evaluations 1, 2, 4, ... of its thread's simulation
static thread_local int evals = 0, eval_limit = 0, count = 0;
struct Probe {
    static constexpr bool vel_dependent{false};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        ++evals;
        if (evals <= eval_limit && (evals & (evals - 1)) == 0) mcrt::yield();
        for (size_t i = 0; i < p.number(); ++i) a[i].x -= 0.3 * p.pos(i).x, a[i].y -= 0.1 * p.pos(i).y;
    }
};
using NF = force::Interactions<force::NewtonianGrav>;
using YF = force::Interactions<force::NewtonianGrav, Probe>;
// ---- digest of what a simulation did
struct Trace {
    std::string s;
    template <typename T> void num(T const& x) {
        long double v = (long double)(typename raw_type<T>::type)x;
        char b[48];
        snprintf(b, sizeof b, "%La ", v);
        s += b;
    }
    template <typename P> void state(P const& p) {
        num(p.time());
        for (size_t i = 0; i < p.number(); ++i) num(p.mass(i)), num(p.pos(i).x), num(p.pos(i).y), num(p.pos(i).z), num(p.vel(i).x), num(p.vel(i).y), num(p.vel(i).z);
        s += '\n';
    }
};
static std::string slurp(std::string const& n) {
    std::ifstream in(n);
    return std::string((std::istreambuf_iterator<char>(in)), {});
}
template <typename P> static P body(int id, int i) {
    using V = typename P::Vector;
    using Sc = typename P::Scalar;
    Sc m = 1.0 + .25 * i + .125 * id, k = 1 + .25 * id;
    V x(Sc(1.5 * i * k), Sc(-.25 * i * i + .125 * id), Sc(.0625 * i)), v(Sc(.125 * (i == 1)), Sc(i == 1 ? .75 : i == 2 ? .5 : 0), Sc(.0625 * i * k));
    // the third body changes sides during the first step, which changes the chain
    if (i == 2) x = V(Sc(.75 * k - .0635), Sc(-.125 + .125 * id), Sc(.03125 + 1.5 * k)), v.x = Sc(.5);
    if constexpr (std::is_constructible_v<P, Sc, Sc, Sc, Sc, V, V>) return P(m, Sc(.01 * (i + 1)), Sc(.25), Sc(.05 * (id + 1)), x, v);
    else if constexpr (std::is_constructible_v<P, Sc, Sc, Sc, V, V>) return P(m, Sc(.02 * (i + 1)), Sc(.5 + id), x, v);
    else if constexpr (std::is_constructible_v<P, Sc, Sc, V, V>) return P(m, Sc(.01 * (i + 1)), x, v);
    else return P(m, x, v);
}
static const int SIZE[] = {3, 4, 2};
using Hook = void (*)(int);
static void nothing(int) {}
static void yields(int) { mcrt::yield(); }
// one complete simulation: construction, callbacks of every kind, run, files
template <typename Sim> static std::string simulate(int id, int steps, Hook hook) {
    using PS = typename Sim::ParticleSystem;
    using Sc = typename Sim::Scalar;
    using P = typename Sim::Particle;
    Trace t;
    std::string f = "c06_" + S(getpid()) + "_" + S(mcrt::self()) + "_" + S(count++);
    {
        std::vector<P> v{body<P>(id, 0), body<P>(id, 1)};
        for (int i = 2; i < SIZE[id]; ++i) v.push_back(body<P>(id, i));
        Sim sim(Sc(.5 * id), v);
        hook(-1);
        typename Sim::RunArgs a;
        a.step_size = Sc(id == 0 ? .0625 : .03125);
        a.rtol = Sc(id == 2 ? 1e-6 : 1e-9);
        a.atol = Sc(0);
        int n = 0;
        a.add_start_point_operation([&](PS& p, Sc h) { t.s += "start "; t.num(h); });
        a.add_operation([&](PS& p, Sc h) { t.num(h); t.state(p); hook(n++); });
        a.add_operation(callback::StepSlice([&](PS& p, Sc) { t.s += "slice\n"; }, 1 + id % 2));
        a.add_operation(callback::TimeSlice([&](PS& p, Sc) { t.s += "time\n"; }, Sc(.5 * id), Sc(.5 * id + 1), size_t(20 + id)));
        a.add_operation(callback::LogTimeSlice([&](PS& p, Sc) { t.s += "logtime\n"; }, Sc(.5 * id), Sc(.5 * id + 10), size_t(50 + id)));
        a.add_operation(callback::DefaultWriter(f + ".txt"));
        a.add_operation(callback::EnergyErrWriter(f + ".err"));
        a.add_stop_condition([&](PS& p, Sc) { return n >= steps; });
        a.add_stop_condition(Sc(.5 * id + 1000));
        a.add_stop_point_operation([&](PS& p, Sc h) { t.s += "end "; t.num(h); t.state(p); });
        sim.run(a);
        hook(-2);
        t.state(sim.particles());
    }
    t.s += slurp(f + ".txt") + "|" + slurp(f + ".err");
    unlink((f + ".txt").c_str()), unlink((f + ".err").c_str());
    return t.s;
}
// a simulation continued as itself (who 0), as a copy (1), as a copy assigned to a used simulator (2), as a moved copy (3); others are the continuations run before it
template <typename Sim> static Sim start(int id) {
    using P = typename Sim::Particle;
    using Sc = typename Sim::Scalar;
    std::vector<P> v{body<P>(id, 0), body<P>(id, 1)};
    for (int i = 2; i < SIZE[id]; ++i) v.push_back(body<P>(id, i));
    return Sim(Sc(.5 * id), v);
}
template <typename Sim> static void leg(Sim& sim, int id, int steps, Trace* t) {
    using PS = typename Sim::ParticleSystem;
    using Sc = typename Sim::Scalar;
    typename Sim::RunArgs a;
    a.step_size = Sc(id == 0 ? .0625 : .03125);
    a.rtol = Sc(id == 2 ? 1e-6 : 1e-9);
    int n = 0;
    a.add_operation([&](PS& p, Sc h) { ++n; if (t) t->num(h), t->state(p); });
    a.add_stop_condition([&](PS& p, Sc) { return n >= steps; });
    sim.run(a);
    if (t) t->state(sim.particles());
}
template <typename Sim> static std::string copies(int id, std::vector<int> const& order) {
    Trace t;
    Sim s = start<Sim>(id);
    leg(s, id, 2, (Trace*)nullptr);
    if (order.empty()) { leg(s, id, 2, &t); return t.s; }
    if constexpr (std::is_copy_constructible_v<Sim> && std::is_copy_assignable_v<Sim> && std::is_move_constructible_v<Sim>) {
        Sim a(s), b = start<Sim>((id + 1) % 3), c(s);
        leg(b, (id + 1) % 3, 1, (Trace*)nullptr);
        b = s;
        Sim d(std::move(c));
        Sim* all[] = {&s, &a, &b, &d};
        for (int w : order) t.s.clear(), leg(*all[w], id, 2, &t);
        return t.s;
    } else return "";
}
// user functions integrated by the Bulirsch-Stoer iterator
static std::string ode_function(int id, int steps, Hook hook) {
    using T = Types<double>;
    ode::BulirschStoer<integrator::LeapFrogDKD<T>, ode::WorstOffender<T>, ode::PIDController<T>> it;
    it.set_rtol(1e-9), it.set_atol(id == 1 ? 0 : 1e-9);
    using A = typename T::ScalarArray;
    A y(2 + id, 1.0);
    auto f = [id](A const& x, A& d, double t) { for (size_t i = 0; i < x.size(); ++i) d[i] = (i % 2 ? -1. : 1.) * x[(i ^ 1) < x.size() ? (i ^ 1) : i] * (1 + .1 * id) + .01 * t; };
    double t = .25 * id, h = .125;
    Trace r;
    hook(-1);
    for (int k = 0; k < steps; ++k) {
        h = it.iterate(f, y, t, h);
        r.num(t), r.num(h);
        for (auto& x : y) r.num(x);
        hook(k);
    }
    hook(-2);
    return r.s;
}
struct Kind { const char* name; std::string (*run)(int, int, Hook); std::string (*copy)(int, std::vector<int> const&) = nullptr; };
#define M(...) {#__VA_ARGS__, simulate<hub::methods::__VA_ARGS__>, copies<hub::methods::__VA_ARGS__>}
static const Kind K[] = {
#if GROUP == 0
    M(BS<YF>), M(AR_Chain<YF>), M(AR_Chain_Plus<NF>), {"ode function", ode_function},
#elif GROUP == 1
    M(Sym4<YF>), M(AR_Sym6_Chain<YF>), M(Const_Sym2<YF>), M(Const_AR_Sym4_Chain_Plus<NF>),
#elif GROUP == 2
    M(Radau<YF>), M(AR_Radau_Chain<YF>), M(Const_Radau<YF>), M(Chain_BS<YF>),
#elif GROUP == 3
    M(BS<force::Interactions<force::NewtonianGrav, force::PN1, force::PN2, force::PN2p5>>), M(AR_Chain<force::Interactions<force::NewtonianGrav, force::Tidal>, particles::TideParticles>), M(Const_Sym4<force::Interactions<force::NewtonianGrav, force::StaticGasDrag>, particles::DragParticles>),
#elif GROUP == 4
    M(AR_BS<YF, particles::SizeParticles>), M(Sym2_Ext<NF>), M(Radau_Plus<NF>), M(AR_Sym10<NF>),
#endif
};
enum { NK = sizeof K / sizeof *K };
static const int IDS = 3;
static std::vector<std::string> oracle;  // [kind][id][steps 1..3], each from a process of its own
static std::string const& expect(int k, int id, int steps) { return oracle[(k * IDS + id) * 4 + steps]; }
static void prepare() {
    if (!oracle.empty()) return;
    for (int k = 0; k < NK; ++k)
        for (int id = 0; id < IDS; ++id)
            for (int st = 0; st < 4; ++st) {
                int fd[2];
                if (pipe(fd)) abort();
                pid_t pid = fork();
                if (!pid) {
                    alarm(60);
                    std::string s = st ? K[k].run(id, st, nothing) : "";
                    size_t p = 0;
                    while (p < s.size()) { ssize_t w = write(fd[1], s.data() + p, s.size() - p); if (w <= 0) break; p += w; }
                    _exit(0);
                }
                close(fd[1]);
                std::string r;
                char b[4096];
                ssize_t n;
                while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
                close(fd[0]);
                int stt;
                waitpid(pid, &stt, 0);
                oracle.push_back(r);
            }
}
static std::string diff(std::string const& a, std::string const& b) {
    size_t p = 0;
    while (p < a.size() && p < b.size() && a[p] == b[p]) ++p;
    size_t q = a.rfind('\n', p);
    q = q == std::string::npos ? 0 : q + 1;
    return "got '" + a.substr(q, 120) + "' instead of '" + (q < b.size() ? b.substr(q, 120) : "") + "'";
}
static void judge(int k, int id, int steps, std::string const& got, std::string const& how) {
    if (got != expect(k, id, steps)) fail("influence:" + how, std::string(K[k].name) + " simulation " + S(id) + " " + how + ": " + diff(got, expect(k, id, steps)));
}
// param: kinds of the simulations in base 8 (+1), low digit first
static std::vector<int> kinds(int param) { std::vector<int> r; for (; param; param /= 8) r.push_back(param % 8 - 1); return r; }
static void concurrent_(int param, int steps, int limit) {
    auto ks = kinds(param);
    std::vector<std::string> got(ks.size());
    std::vector<std::thread> th;
    for (size_t i = 1; i < ks.size(); ++i)
        th.emplace_back([&, i] { evals = 0, eval_limit = limit; got[i] = K[ks[i]].run(i, steps, yields); });
    evals = 0, eval_limit = limit;
    got[0] = K[ks[0]].run(0, steps, yields);
    for (auto& t : th) t.join();
    for (size_t i = 0; i < ks.size(); ++i) judge(ks[i], i, steps, got[i], "run concurrently");
    mcrt::outcome(1);
}
static void concurrent_steps(int p) { concurrent_(p, 2, 0); }
static void concurrent_evals(int p) { concurrent_(p, 1, 64); }
// all sequences of three simulations of this group in one thread, and then a thread of its own
static void in_sequence(int n) {
    for (int j = 0; j < n; ++j) {
        int k = mcrt::choose(NK), id = mcrt::choose(IDS);
        judge(k, id, 2, K[k].run(id, 2, nothing), "run after other simulations");
        mcrt::outcome(k * 8 + id);
    }
}
// a simulation run inside a callback of another one
static int inner_k, inner_id, inner_at;
static std::string inner;
static void nest(int n) { if (n == inner_at) inner = K[inner_k].run(inner_id, 2, nothing); }
static void nested(int) {
    int k = mcrt::choose(NK), id = mcrt::choose(IDS);
    inner_k = mcrt::choose(NK), inner_id = mcrt::choose(IDS), inner_at = mcrt::choose(4) - 2;
    inner = "never ran";
    judge(k, id, 3, K[k].run(id, 3, nest), "run around another simulation");
    judge(inner_k, inner_id, 2, inner, "run inside a callback of another simulation");
    mcrt::outcome((k * 8 + id) * 64 + inner_k * 8 + inner_id);
}
// copies of a simulation continue like the original, whichever of them run before (all ordered selections of the four)
static void copied(int) {
    int k = mcrt::choose(NK), id = mcrt::choose(IDS), n = mcrt::choose(3) + 1;
    if (!K[k].copy) return;
    std::vector<int> order;
    std::string how;
    static const char* who[] = {"original", "copy", "assigned copy", "moved copy"};
    for (int j = 0; j < n; ++j) order.push_back(mcrt::choose(4)), how += std::string(j ? ", " : "") + who[order[j]];
    for (int j = 0; j < n; ++j) for (int i = 0; i < j; ++i) if (order[i] == order[j]) return;
    std::string want = K[k].copy(id, {}), got = K[k].copy(id, order);
    if (!got.empty() && got != want) fail("influence:copies", std::string(K[k].name) + " simulation " + S(id) + " continued as " + how + ": " + diff(got, want));
    mcrt::outcome((k * 8 + id) * 8 + n);
}
#if GROUP == 0
// the generators, the random orbits and file names are used from several threads
static void generators(int) {
    auto job = [](int id) {
        for (int k = 0; k < 2; ++k) {
            double x = random::Uniform(0, 1) + random::Logarithm(1, 2) + random::PowerLaw(2, 1, 2);
            mcrt::yield();
            x += random::Normal(0, 1) + random::Maxwellian(1) + random::TruncatedNormal(-9, 9, 0, 1);
            mcrt::yield();
            x += random::TruncatedMaxwellian(0, 9, 1) + random::Normal2(.01).first;
            orbit::Kepler o(1., 1., 1., .5, orbit::isotherm, orbit::isotherm, orbit::isotherm, orbit::isotherm);
            auto h = scattering::incident_orbit(1., 1., 1., 1., 50.);
            if (!(x == x) || !(o.nu == o.nu) || !(h.nu == h.nu)) fail("generator", "NaN");
        }
    };
    std::thread t(job, 1);
    job(0);
    t.join();
    mcrt::outcome(0);
}
#endif
std::vector<mcrt::Test> mcrt::tests() {
    prepare();
    std::vector<mcrt::Test> r;
    auto nm = [](int p) { std::string s; for (int k : kinds(p)) s += (s.empty() ? "" : " + ") + std::string(K[k].name); return s; };
    auto add = [&](std::vector<int> v) {
        int p = 0;
        for (int i = v.size(); i-- > 0;) p = p * 8 + v[i] + 1;
        r.push_back({"steps: " + nm(p), "simulations of 2 steps with scheduling points at construction, every operation callback and the end of run", {1, v.size() == 2 ? 2 : 1}, concurrent_steps, p, false, false, 0, {6000, 60000}});
        if (v.size() == 2) r.push_back({"force evaluations: " + nm(p), "simulations of one step with scheduling points also inside force evaluations 1,2,4,..,64", {1, 2}, concurrent_evals, p, false, false, 0, {6000, 60000}});
    };
    for (int k = 0; k < NK; ++k) add({k, k});
    for (int k = 0; k + 1 < NK; ++k) add({k, k + 1});
    add({0, 0, 0});
    add({0, 1, NK - 1});
    r.push_back({"in sequence", "all sequences of two simulations over the methods of the group x 3 configurations, in one thread", {0, 0}, in_sequence, 2, false, true, 0, {4000, 4000}});
    r.push_back({"in sequence of three", "all sequences of three simulations over the methods of the group x 3 configurations, in one thread", {0, 0}, in_sequence, 3, true, true, 0, {4000, 4000}});
    r.push_back({"nested", "every simulation with every other one run inside one of its callbacks", {0, 0}, nested, 0, false, true, 0, {4000, 4000}});
    r.push_back({"copies", "a simulation continued as itself, as a copy, a copy assigned to a used simulator or a moved copy, after every ordered selection of the others", {0, 0}, copied, 0, false, true, 0, {4000, 4000}});
#if GROUP == 0
    r.push_back({"generators", "two threads drawing from every generator, random orbit and incident orbit", {3, 6}, generators, 0});
#endif
    return r;
}
