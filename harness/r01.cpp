// R01: protocol of Simulator::run, explored for every callback set / firing pattern / run length
#include "stub_run.hpp"
using namespace stub;
using mc::fmt;
using Sim = hub::Simulator<Sys, Iter>;
using Sim2 = hub::Simulator<Sys, IterNoTol>;
using Args = Sim::RunArgs;
static int steps_done() { int n = 0; for (auto& e : log_) n += e.kind == 'I'; return n; }
static int steps0_ = 0;  // steps before the current run
static void fn_op(Sys& p, double h, int id, int bound) { log_.push_back({'O', id, h, p.time(), &p, bound}); }
struct Functor {
    int id; char k; long calls = 0;
    void operator()(Sys& p, double h) { log_.push_back({k, id, h, p.time(), &p, ++calls}); }
};
static const double STEPS[] = {1.0, 0.5, 1.0, 2.0, 0.25, 1.0, 1.0, 1.0};
// expected trace of one run, given the same stepping rule
template <typename S>
static bool one_run(mc::Case& c, S& sim, int ns, int no, int nt, int f0, int k0, int f1, int k1, double end, bool endset, double h0, std::string const& tag) {
    Args a;
    a.step_size = h0;
    a.atol = 0.125;
    a.rtol = 0.0625;
    a.time_rtol = 1e-9;
    int ref = 0;
    for (int i = 0; i < ns; ++i)
        if (i == 0) a.add_start_point_operation([](Sys& p, double h) { log_.push_back({'S', 0, h, p.time(), &p}); });
        else a.add_start_point_operation([](Sys& p, double h, int b) { log_.push_back({'S', 1, h, p.time(), &p, b}); }, 77);
    for (int i = 0; i < no; ++i)
        if (i == 0) a.add_operation(fn_op, 0, 41);
        else if (i == 1) a.add_operation([](Sys& p, double h, int& r) { log_.push_back({'O', 1, h, p.time(), &p, ++r}); }, std::ref(ref));
        else a.add_operation(Functor{2, 'O'});
    for (int i = 0; i < nt; ++i)
        if (i == 0) a.add_stop_point_operation(Functor{0, 'T'});
        else a.add_stop_point_operation([](Sys& p, double h, std::string const& s) { log_.push_back({'T', 1, h, p.time(), &p, (long)s.size()}); }, std::string("abc"));
    auto addc = [&](int id, int f, int kind) {  // f<0: absent; f==9 never
        if (f < 0) return;
        if (kind == 0) a.add_stop_condition([=](Sys& p, double h) { log_.push_back({'C', id, h, p.time(), &p}); return steps_done() - steps0_ == f; });
        else if (kind == 1) a.add_stop_condition([=, n = 0](Sys& p, double h) mutable { log_.push_back({'C', id, h, p.time(), &p}); return n++ == f; });
        else a.add_stop_condition([=](Sys& p, double h, int lim) { log_.push_back({'C', id, h, p.time(), &p, lim}); return steps_done() - steps0_ >= lim; }, f);
    };
    addc(0, f0, k0);
    addc(1, f1, k1);
    if (endset) a.add_stop_condition(end);
    if (a.is_end_time_set() != endset || a.is_stop_condition_set() != (f0 >= 0 || f1 >= 0)) { c.fail("args:flags", "is_end_time_set/is_stop_condition_set wrong"); }
    size_t from = log_.size();
    steps0_ = steps_done();
    atol_ = rtol_ = -1;
    const void* me = &sim.particles();
    double t = sim.particles().time();
    sim.run(a);
    // ---- monitor
    std::vector<Ev> tr;
    for (size_t i = from; i < log_.size(); ++i) tr.push_back(log_[i]);
    c.states(tr.size());
    auto show = [&] { std::string s; for (auto& e : tr) s += e.kind + std::to_string(e.id) + " "; return s; };
    for (auto& e : tr) if (e.who != me) { c.fail("callback:object", tag + ": callback " + e.kind + " does not receive the simulator's own particles"); return false; }
    size_t p = 0;
    auto fail = [&](const char* key, std::string const& w) { c.fail(key, tag + " at event " + std::to_string(p) + ": " + w + " in " + show().substr(0, 400)); return false; };
    auto expect = [&](char k, int id, double h, double tt) { return p < tr.size() && tr[p].kind == k && tr[p].id == id && tr[p].h == h && tr[p].t == tt; };
    double h = h0;
    for (int i = 0; i < ns; ++i, ++p) {
        if (!expect('S', i, h, t)) return fail("start-ops", "start operation missing, out of order or with wrong arguments");
        if (i == 1 && tr[p].extra != 77) return fail("bound-args", "bound argument of start operation lost");
    }
    int k = 0;
    int ocalls = 0;
    for (;;) {
        bool at_end = endset && std::fabs(t - end) <= 1e-9 * std::fabs(end);
        bool seen[2] = {false, false};
        bool stop = (f0 >= 0 && k >= f0 && (k0 == 2 || k == f0)) || (f1 >= 0 && k >= f1 && (k1 == 2 || k == f1));
        while (p < tr.size() && tr[p].kind == 'C') {
            if (tr[p].t != t) return fail("stop-cond:args", "stop condition saw a wrong time");
            seen[tr[p].id] = true;
            ++p;
        }
        if (at_end) break;
        if (stop) break;
        if ((f0 >= 0 && !seen[0]) || (f1 >= 0 && !seen[1])) return fail("stop-cond:skipped", "a stop condition was not evaluated before the step");
        double rest = end - t;
        double hh = endset && std::fabs(h) > std::fabs(rest) ? rest : h;
        for (int i = 0; i < no; ++i, ++p) {
            if (!expect('O', i, hh, t)) return fail("ops", "operation missing, out of order or with wrong step/time");
            if (i == 0 && tr[p].extra != 41) return fail("bound-args", "bound argument of operation lost");
            if (i == 1 && tr[p].extra != ++ocalls) return fail("bound-args", "std::ref argument of operation not shared");
            if (i == 2 && tr[p].extra != ocalls) return fail("op-state", "operation does not keep its state");
        }
        if (!(p < tr.size() && tr[p].kind == 'P')) return fail("step", "step is not preceded by pre_iter_process");
        ++p;
        if (!expect('I', 0, hh, t)) return fail("step", "integration step missing or with a step differing from the one given to the operations");
        ++p;
        t += hh;
        h = STEPS[(steps0_ + k + 1) % 8];
        if (!(p < tr.size() && tr[p].kind == 'Q')) return fail("step", "step is not followed by post_iter_process");
        ++p;
        ++k;
        if (k > 64) return fail("runaway", "run does not stop");
    }
    while (p < tr.size() && tr[p].kind == 'C') ++p;
    for (int i = 0; i < no; ++i, ++p) {
        if (!expect('O', i, h, t)) return fail("final-ops", "operations not called once in order at the end of the run");
        if (i == 1 && tr[p].extra != ++ocalls) return fail("bound-args", "std::ref argument of operation not shared");
        if (i == 2 && tr[p].extra != ocalls) return fail("op-state", "operation does not keep its state");
    }
    for (int i = 0; i < nt; ++i, ++p) {
        if (!expect('T', i, h, t)) return fail("stop-ops", "stop-point operations not called once in order");
        if (i == 0 && tr[p].extra != 1) return fail("stop-ops", "stop-point functor called more than once");
        if (i == 1 && tr[p].extra != 3) return fail("bound-args", "bound argument of stop operation lost");
    }
    if (p != tr.size()) return fail("extra", "unexpected further events");
    if (sim.particles().time() != t) return fail("time", "final time wrong");
    if (std::is_same_v<S, Sim> && (atol_ != 0.125 || rtol_ != 0.0625)) return fail("tolerances", fmt("atol/rtol not forwarded to the iterator (%g,%g)", atol_, rtol_));
    c.transitions(k + ns + nt + no * (k + 1));
    c.outcome(mc::hash(show()));
    return true;
}
static std::vector<Sys::Particle> two() { return {Sys::Particle{1.0, -1, 0, 0, 0, -0.5, 0}, Sys::Particle{1.0, 1, 0, 0, 0, 0.5, 0}}; }
static void setup() {
    reset();
    limit_ = 200;
    step_ = [](double, double, double&) { return STEPS[iters_ % 8]; };
    steps0_ = 0;
}
static const int FIRE_Q[] = {-1, 9, 0, 1, 2, 4};
static const double ENDS[] = {0, 0.5, 1, 2.75, 5};  // durations; index 0 = unset
template <typename S>
static void run_case(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int ns = d(3), no = d(4), nt = d(3), f0 = d.pick(FIRE_Q), k0 = d(3), f1 = d.pick(FIRE_Q), k1 = d(3), e = d(5), t0 = d(2), rep = d(3);
    double start = t0 ? -2.5 : 1.0;  // exact binary numbers; end never 0
    bool endset = e > 0;
    bool fires = (f0 >= 0 && f0 != 9) || (f1 >= 0 && f1 != 9);
    if (f0 == 9) k0 = 2;
    if ((f0 < 0 && k0) || (f1 < 0 && k1)) return;  // duplicates
    if (f0 == 9 && (int)(i % 1) ) return;
    if (!endset && !fires) return;
    setup();
    S sim(start, two());
    std::string tag = fmt("start=%g ops=%d/%d/%d cond0=%d(kind %d) cond1=%d(kind %d) end=%s+%g", start, ns, no, nt, f0, k0, f1, k1, endset ? "" : "unset", endset ? ENDS[e] : 0);
    c.sample(tag);
    double end = start + ENDS[e];
    if (endset && end == 0) return;
    try {
        if (!one_run(c, sim, ns, no, nt, f0, k0, f1, k1, end, endset, 1.0, tag)) return;
        // the same simulator runs again with fresh arguments: later end, other callbacks
        if (rep >= 1) {
            double end2 = sim.particles().time() + ENDS[1 + (e + 2) % 4];
            if (end2 == 0) return;
            if (!one_run(c, sim, (ns + 1) % 3, (no + 1) % 4, (nt + 1) % 3, f1, k1, f0, k0, end2, true, 0.5, tag + " second run")) return;
        }
        if (rep >= 2) one_run(c, sim, ns, no, nt, 2, 0, -1, 0, 0, false, 2.0, tag + " third run");
    } catch (TooLong) { c.fail("runaway", tag + ": run does not stop"); }
}
// callbacks modify the particles: what they write is what the step sees, and vice versa; RunArgs used twice keeps its callbacks
static void mutate_case(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int which = d(3), nsteps = 1 + d(4), reuse = d(2);
    setup();
    std::vector<double> seen;
    step_ = [](double, double, double&) { return 1.0; };
    Sim sim(1.0, two());
    Args a;
    a.step_size = 1.0;
    double w = 0;
    if (which == 0) a.add_start_point_operation([](Sys& p, double) { p.mass(0) += 8; });
    if (which == 1) a.add_operation([](Sys& p, double) { p.mass(0) += 1; });
    if (which == 2) a.add_stop_point_operation([](Sys& p, double) { p.mass(0) += 16; });
    a.add_operation([&](Sys& p, double) { seen.push_back(p.mass(0)); });
    a.add_stop_condition(1.0 + nsteps);
    sim.run(a);
    if (reuse) { a.add_stop_condition(1.0 + 2 * nsteps); sim.run(a); }
    std::vector<double> exp;
    double m = 1;
    for (int r = 0; r <= reuse; ++r) {
        if (which == 0) m += 8;
        for (int k = 0; k <= nsteps; ++k) { if (which == 1) m += 1; exp.push_back(m); }
        if (which == 2) m += 16;
    }
    c.states(exp.size());
    c.check(seen == exp && sim.particles().mass(0) == m, "callback:mutation", fmt("case %llu: values written by callbacks are not the ones seen later", (unsigned long long)i));
}
// slices registered as callbacks keep counting inside run()
static void slice_case(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int k = 1 + d(4), nsteps = d(8), as = d(3), ck = 1 + d(5);
    setup();
    step_ = [](double, double, double&) { return 1.0; };
    Sim sim(1.0, two());
    Args a;
    a.step_size = 1.0;
    std::vector<int> fired;
    auto rec = [&](Sys&, double) { fired.push_back(steps_done()); };
    a.add_operation(hub::callback::StepSlice(rec, k));
    int calls = 0;
    if (as == 1) {  // a stop condition evaluated only every ck-th step
        auto cond = [&](Sys&, double) -> bool { ++calls; return steps_done() > 0; };
        a.add_stop_condition(hub::callback::StepSlice(cond, ck));
    } else if (as == 2) {
        auto cond = [&](Sys& p, double) -> bool { ++calls; return p.time() > 1.0; };
        a.add_stop_condition(hub::callback::TimeSlice(cond, 1.0, 1.0 + 2.0 * ck, 2));  // looks at t=1, 1+ck, 1+2ck
    }
    a.add_stop_condition(1.0 + nsteps);
    try { sim.run(a); } catch (TooLong) { return c.fail("runaway", "run does not stop"); }
    int expsteps = nsteps;
    if (as) expsteps = std::min(nsteps, ck);
    std::vector<int> exp;
    for (int s = 0; s <= expsteps; ++s) if (s % k == 0) exp.push_back(s);
    c.states(expsteps + 1);
    c.check(steps_done() == expsteps, "slice:stop", fmt("sliced stop condition (kind %d, every %d) stopped after %d steps instead of %d", as, ck, steps_done(), expsteps));
    c.check(fired == exp, "slice:op", fmt("StepSlice(%d) inside run fired %zu times instead of %zu", k, fired.size(), exp.size()));
}
// run without any stop condition must not integrate: it reports the mistake instead of running forever
int main(int argc, char** argv) {
    uint64_t full = 3ull * 4 * 3 * 6 * 3 * 6 * 3 * 5 * 2 * 3;
    return mc::main(argc, argv, {
        {"protocol", "0-2 start, 0-3 step, 0-2 stop operations (function pointer, lambda, functor; bound values, std::ref) x 0-2 stop conditions firing at {never,0,1,2,4} (stateless, stateful, bound-limit) x end {unset,+.5,+1,+2.75,+5} x start time 2 x 1-3 consecutive runs; step script {1,.5,1,2,.25}", [=](bool) { return full; }, run_case<Sim>},
        {"no-tolerances", "same space with an iterator without tolerance setters (first runs only)", [=](bool t) { return t ? full : full / 6; }, run_case<Sim2>},
        {"mutation", "callbacks of every list modifying the particles x 1-4 steps x reusing the arguments", [](bool) { return 3ull * 4 * 2; }, mutate_case},
        {"slices", "StepSlice/TimeSlice as operation and stop condition inside run, intervals 1-5, 0-7 steps", [](bool) { return 4ull * 8 * 3 * 5; }, slice_case},
    });
}
