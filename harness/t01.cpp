// T01: configuration files, command lines, timer, names, units, stream helpers
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "mc.hpp"
#include <thread>
#include "spaceHub.hpp"
using namespace hub::unit;
namespace tl = hub::tools;
// ---- virtual clock: replaces the C library's for this process
static bool v_on = false;
static int64_t v_ns = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
    if (!v_on) return (int)syscall(SYS_clock_gettime, id, ts);
    ts->tv_sec = v_ns / 1000000000, ts->tv_nsec = v_ns % 1000000000;
    return 0;
}
extern "C" time_t time(time_t* t) noexcept {
    time_t r;
    if (v_on) r = v_ns / 1000000000;
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    if (t) *t = r;
    return r;
}
struct Clock { Clock(int64_t t) { v_ns = t, v_on = true; } ~Clock() { v_on = false; } };
// runs f in a child; true when it came back
template <typename F> static bool returns(F f) {
    pid_t pid = fork();
    if (!pid) {
        if (!freopen("/dev/null", "w", stdout) || !freopen("/dev/null", "w", stderr)) _exit(9);
        alarm(20);
        try { f(); } catch (...) { _exit(8); }
        _exit(7);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 7;
}
// ---- configuration files; D and K stand for the divider and the comment character
static const char* const Lines[] = {"aD1", "  aD 2  ", "bD-3.5e2", "\tb\tD\t7", "", "   ", "KaD9", "  K aD9", "KK", "cDhello", "cDx y  z/a/long/path/to.txt", "cDpDq", "cDu Kv", "long_keyD1e-300", "aD5\r", " AD6", "b KD4", "DD"};
enum { NL = sizeof Lines / sizeof *Lines };
static const char Dv[] = {'=', ':', '|'}, Cm[] = {'#', ';', '%'};
static std::string squeeze(std::string const& s) { std::string r; for (char ch : s) if (!strchr(" \t\r\n\v\f", ch)) r += ch; return r; }
static std::string quote(std::string const& s) { std::string r; for (char ch : s) r += ch == '\n' ? std::string("\\n") : ch == '\r' ? "\\r" : ch == '\t' ? "\\t" : std::string(1, ch); return r; }
static int mfd() { static int fd = memfd_create("cfg", 0); return fd; }
static std::string path() { return mc::fmt("/proc/self/fd/%d", mfd()); }
static void put(std::string const& s) { if (ftruncate(mfd(), 0) || pwrite(mfd(), s.data(), s.size(), 0) != (ssize_t)s.size()) abort(); }
static uint64_t depth(bool th) { return th ? 5 : 4; }
static bool thorough_ = false;
static void config(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    char D = d.pick(Dv), K = d.pick(Cm);
    int eol = d(2), how = d(2), n = (int)depth(thorough_);
    std::string text;
    std::map<std::string, std::string> ref;
    for (int j = 0; j < n; ++j) {
        std::string l = d.pick(Lines);
        for (auto& ch : l) if (ch == 'D') ch = D; else if (ch == 'K') ch = K;
        std::string s = squeeze(l);
        if (!s.empty() && s[0] != K) { size_t p = s.find(D); if (p != 0) ref[s.substr(0, p)] = s.substr(p + 1); }
        text += l;
        if (j + 1 < n || eol) text += '\n';
    }
    std::string t = mc::fmt("divider %c, comment %c, file \"%s\"", D, K, quote(text).c_str());
    c.sample(t);
    c.states(), c.transitions(n);
    put(text);
    std::string f = path();
    tl::ConfigReader r = D == '=' && K == '#' ? (how ? tl::ConfigReader(f) : tl::ConfigReader(f.c_str())) : how ? tl::ConfigReader(f, D, K) : tl::ConfigReader(f.c_str(), D, K);
    mc::Hasher h;
    for (int rep = 0; rep < 2; ++rep)
        for (auto& kv : ref) {
            std::string g = t + ", key " + kv.first, got = r.get<std::string>(kv.first);
            c.check(got == kv.second, "ConfigReader string", g + ": \"" + got + "\" instead of \"" + kv.second + "\"");
            for (char ch : got) h((double)ch);
            char* e;
            double x = strtod(kv.second.c_str(), &e);
            if (!kv.second.empty() && !*e) {
                c.check(r.get<double>(kv.first) == x, "ConfigReader double", g);
                c.check(r.get<float>(kv.first) == (float)x || x == 1e-300, "ConfigReader float", g);
                if (kv.second.find_first_of(".e") == std::string::npos) c.check(r.get<int>(kv.first) == (int)x && (x < 0 || r.get<size_t>(kv.first) == (size_t)x), "ConfigReader integer", g);
            }
        }
    c.outcome(h.h);
}
// long keys, values and comments, many keys
static const int KL[] = {1, 15, 16, 17, 31, 32, 64, 300}, VL[] = {1, 15, 16, 63, 64, 127, 128, 255, 256, 1023, 1024, 4096, 70000}, NK[] = {1, 2, 50, 1000};
static void large(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int kl = d.pick(KL), vl = d.pick(VL), nk = d.pick(NK), cm = d(2);
    if ((long)nk * (kl + vl) > 3000000) nk = 2;
    std::string text;
    std::vector<std::pair<std::string, std::string>> ref;
    for (int j = 0; j < nk; ++j) {
        std::string k = mc::fmt("%d", j), v;
        while ((int)k.size() < kl) k = "k" + k;
        for (int q = 0; q < vl; ++q) v += char('a' + (q * 7 + j) % 26);
        if (cm) text += "#" + std::string(vl, '-') + k + "=" + v + "\n" + std::string(kl, ' ');
        text += k + " = " + v + "\n";
        ref.emplace_back(k, v);
    }
    std::string t = mc::fmt("%d keys of >= %d characters, values of %d characters%s", nk, kl, vl, cm ? ", comments in between" : "");
    c.sample(t);
    c.states(), c.transitions(nk);
    put(text);
    tl::ConfigReader r(path());
    for (auto& kv : ref) c.check(r.get<std::string>(kv.first) == kv.second, "ConfigReader large file", t + ", key " + kv.first.substr(0, 40));
    // the same words on a command line
    std::vector<std::string> av{"prog", ref[0].second, ref[nk - 1].second, "12.5"};
    std::vector<char*> p;
    for (auto& s : av) p.push_back(s.data());
    std::string q;
    tl::OptArg o;
    double x = 0;
    tl::read_command_line(4, p.data(), q, o, x);
    c.check(q == av[1] && o.as<std::string>() == av[2] && (std::string)o == av[2] && x == 12.5, "long arguments", t);
    c.outcome(i);
}
static void refused(mc::Case& c, uint64_t i) {
    c.states(), c.transitions();
    if (i == 0) { c.sample("missing file"); c.check(!returns([] { tl::ConfigReader r("/nonexistent/file.cfg"); }), "missing file accepted", "ConfigReader(\"/nonexistent/file.cfg\")"); }
    else if (i < 5) {
        static const char* txt[] = {"", "a=1\n", "# b=2\n", "bb=2\nb2=3\n"};
        put(txt[i - 1]);
        tl::ConfigReader r(path());
        for (auto* k : {"b", "#b", ""}) c.check(!returns([&] { r.get<double>(k); }), "missing key accepted", std::string("key ") + k + ", file " + quote(txt[i - 1]));
    } else if (i == 5) {  // a file the user may only read
        char dir[] = "/tmp/t01XXXXXX";
        if (!mkdtemp(dir)) return;
        std::string f = std::string(dir) + "/ro.cfg";
        { std::ofstream o(f); o << "a=42\n"; }
        chmod(dir, 0755), chmod(f.c_str(), 0444);
        bool ok = returns([&] { if (geteuid() == 0 && (setgid(65534) || setuid(65534))) return; tl::ConfigReader r(f); if (r.get<int>("a") != 42) throw 1; });
        unlink(f.c_str()), rmdir(dir);
        c.check(ok, "read-only file", "a configuration file without write permission cannot be read");
    } else {
        int n = (int)(i - 6), k = n % 5, m = n / 5;  // k arguments, m parameters
        std::vector<std::string> av{"prog", "1", "2", "3", "4"};
        std::vector<char*> p;
        for (auto& s : av) p.push_back(s.data());
        double x = 0, y = 0, z = 0;
        bool r = returns([&] { if (m == 0) tl::read_command_line(k + 1, p.data()); else if (m == 1) tl::read_command_line(k + 1, p.data(), x); else if (m == 2) tl::read_command_line(k + 1, p.data(), x, y); else tl::read_command_line(k + 1, p.data(), x, y, z); });
        c.check(r == (k == m), "number of arguments", mc::fmt("%d arguments for %d parameters %s", k, m, r ? "accepted" : "refused"));
    }
    c.outcome(mc::Hasher()((double)i).h);
}
// ---- command line
static const char* const Args[] = {"1", "-2", "0", "3.5", "1e3", "-1e-3", "abc", "a b", "", "0x", "true"};
enum { NA = sizeof Args / sizeof *Args };
static void command(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int form = d(4);
    std::vector<std::string> av{"prog"};
    for (int j = 0; j < 4; ++j) av.push_back(d.pick(Args));
    std::vector<char*> p;
    for (auto& s : av) p.push_back(s.data());
    p.push_back(nullptr);
    std::string t = "arguments";
    for (int j = 1; j < 5; ++j) t += " \"" + av[j] + "\"";
    c.sample(t);
    auto first = [](std::string s) { std::istringstream is(s); std::string w; is >> w; return w; };
    auto num = [&](std::string s, double& x) { char* e; x = strtod(s.c_str(), &e); return !s.empty() && !*e && s != "0x"; };
    double w[5];
    bool isn[5], isi[5];
    for (int j = 1; j < 5; ++j) isn[j] = num(av[j], w[j]), isi[j] = isn[j] && av[j].find_first_of(".e") == std::string::npos;
    c.states(), c.transitions(4);
    int argc = 5;
    mc::Hasher h;
    if (form == 0) {
        std::string s[4];
        tl::read_command_line(argc, p.data(), s[0], s[1], s[2], s[3]);
        for (int j = 0; j < 4; ++j) c.check(s[j] == first(av[j + 1]), "read_command_line string", t + mc::fmt(": parameter %d is \"%s\"", j + 1, s[j].c_str()));
    } else if (form == 1) {
        if (!isi[1] || !isn[2] || !isn[4]) return;
        int a1 = 7; double a2 = 7; std::string a3; float a4 = 7;
        tl::read_command_line(argc, p.data(), a1, a2, a3, a4);
        c.check(a1 == (int)w[1] && a2 == w[2] && a3 == first(av[3]) && a4 == (float)w[4], "read_command_line typed", t + mc::fmt(": %d %g \"%s\" %g", a1, a2, a3.c_str(), a4));
        h(a2);
    } else if (form == 2) {
        tl::OptArg o[4];
        tl::read_command_line(argc, p.data(), o[0], o[1], o[2], o[3]);
        for (int j = 0; j < 4; ++j) {
            std::string s = o[j], q = o[j].as<std::string>(), k = (char const*)o[j], g = t + mc::fmt(", option %d", j + 1), f = first(av[j + 1]);
            std::ostringstream os;
            os << o[j];
            c.check(s == f && q == f && k == f && os.str() == f, "OptArg string", g + ": \"" + s + "\"");
            if (isn[j + 1]) c.check((double)o[j] == w[j + 1] && o[j].as<double>() == w[j + 1] && (float)o[j] == (float)w[j + 1] && o[j].as<float>() == (float)w[j + 1] && std::fabs((double)((long double)o[j] - w[j + 1])) < 1e-15 && std::fabs((double)(o[j].as<long double>() - w[j + 1])) < 1e-15, "OptArg number", g);
            if (isi[j + 1]) {
                int v = (int)w[j + 1];
                c.check((int)o[j] == v && (long)o[j] == v && (long long)o[j] == v && o[j].as<int>() == v && o[j].as<long>() == v && o[j].as<long long>() == v && (bool)o[j] == (v != 0), "OptArg integer", g);
                if (v >= 0) c.check((unsigned long)o[j] == (unsigned long)v && (unsigned long long)o[j] == (unsigned long)v && o[j].as<unsigned long>() == (unsigned long)v && o[j].as<unsigned long long>() == (unsigned long)v, "OptArg unsigned", g);
            }
        }
    } else {
        using namespace hub;
        auto argv = p.data();
        READ_CMD_LINE(argc, argv, x1, x2, x3, x4);
        c.check((std::string)x1 == first(av[1]) && (std::string)x2 == first(av[2]) && (std::string)x3 == first(av[3]) && (std::string)x4 == first(av[4]), "READ_CMD_LINE", t);
    }
    c.outcome(h((double)i).h);
}
// ---- timer against a virtual clock
static const int64_t Dt[] = {0, 1, 1500000000, 86400000000001};
static void timer(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    int n = thorough_ ? 7 : 6;
    Clock ck(1700000000000000000 + (int64_t)(i % 977) * 1000003);
    tl::Timer tm;
    std::string t;
    int64_t total = 0, seg = 0;
    bool on = false;
    mc::Hasher h;
    c.states(n), c.transitions(n);
    for (int k = 0; k < n; ++k) {
        int op = d(4);
        int64_t dt = d.pick(Dt);
        static const char* nm[] = {"start", "pause", "reset", "get_time"};
        t += mc::fmt("%s +%lldns ", nm[op], (long long)dt);
        if (op == 0) tm.start(), on = true, seg = v_ns;
        else if (op == 1) { tm.pause(); if (on) total += v_ns - seg; on = false; }
        else if (op == 2) tm.reset(), on = false, total = 0;
        double want = (double)(total + (on ? v_ns - seg : 0)) * 1e-9, got = tm.get_time();
        c.check(std::fabs(got - want) <= 1e-14 * want + 1e-20, "Timer", t + mc::fmt(": get_time() gives %.17g s, not %.17g s", got, want));
        h(got);
        v_ns += dt;
    }
    double want = (double)(total + (on ? v_ns - seg : 0)) * 1e-9, got = tm.get_time();
    c.check(std::fabs(got - want) <= 1e-14 * want + 1e-20, "Timer", t + mc::fmt(": get_time() gives %.17g s, not %.17g s", got, want));
    c.sample(t);
    c.outcome(h(got).h);
}
// ---- names
static void names(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    static const char* const Px[] = {"run_", "", "x(1)"};
    int n = thorough_ ? 7 : 6;
    static int64_t base = 1000000000;
    base += 1000;
    Clock ck(base * 1000000000);
    std::set<std::string> seen;
    std::string t;
    c.states(n), c.transitions(n);
    for (int k = 0; k < n; ++k) {
        std::string p = d.pick(Px);
        int dt = d(2);
        std::string s = p == "" && k % 2 ? tl::auto_name(p) : tl::auto_name(p);
        t += mc::fmt("auto_name(\"%s\") %s", p.c_str(), dt ? "+1s " : "");
        char buf[64];
        time_t now_ = v_ns / 1000000000;
        struct tm q;
        localtime_r(&now_, &q);
        strftime(buf, sizeof buf, "%d-%m-%Y_%H:%M:%S", &q);
        c.check(s.compare(0, p.size() + strlen(buf), p + buf) == 0 && s.size() >= 4 && s.compare(s.size() - 4, 4, ".dat") == 0, "auto_name form", t + ": " + s);
        c.check(seen.insert(s).second, "auto_name repeats a name", t + ": " + s + " again");
        v_ns += dt * 1000000000LL;
    }
    std::string z = tl::auto_name();
    c.check(z.compare(0, 6, "space_") == 0 && seen.insert(z).second, "auto_name()", t + ": " + z);
    for (int v : {0, 7, -3, 123456}) c.check(tl::make_name("a_", v) == "a_" + std::to_string(v) + ".dat" && tl::make_name("", v, ".txt") == std::to_string(v) + ".txt", "make_name", mc::fmt("suffix %d", v));
    c.sample(t);
    c.outcome(mc::Hasher()((double)i).h);
}
// the same from several threads, one after the other (the interleavings are C06's)
static void thread_names(mc::Case& c, uint64_t i) {
    mc::Dec d(i);
    static const char* const Px[] = {"run_", "x(1)"};
    static int64_t base = 500000000;
    base += 1000;
    Clock ck(base * 1000000000);
    std::set<std::string> seen;
    std::string t;
    c.states(5), c.transitions(5);
    for (int k = 0; k < 5; ++k) {
        std::string p = d.pick(Px), s;
        int dt = d(2), other = d(2);
        if (other) std::thread([&] { s = tl::auto_name(p); }).join();
        else s = tl::auto_name(p);
        t += mc::fmt("auto_name(\"%s\")%s %s", p.c_str(), other ? " in a thread of its own" : "", dt ? "+1s " : "");
        c.check(seen.insert(s).second, "auto_name repeats a name", t + ": " + s + " again");
        v_ns += dt * 1000000000LL;
    }
    c.sample(t);
    c.outcome(mc::Hasher()((double)i).h);
}
// ---- units
struct U { const char* name; double value, lit, liti, in; };  // value = in (reference), lit = 2.5_x, liti = 3_x
#define UU(n, ref) U{#n, n, 2.5_##n, 3_##n, ref}
static std::vector<U> const& table() {
    static const double pi = 3.14159265358979323846, Y = 2 * pi, day_ = Y / 365.25636042, s = day_ / 86400, km_ = 1 / 149597870.7, kg_ = 1 / 1.98847e30, Me_ = 3.003e-6;
    static const std::vector<U> v{UU(AU, 1), UU(Ms, 1), UU(year, Y), UU(deg, pi / 180), UU(kyr, 1e3 * Y), UU(Myr, 1e6 * Y), UU(Gyr, 1e9 * Y), UU(month, Y / 12), UU(day, day_), UU(hr, day_ / 24), UU(min, day_ / 1440), UU(sec, s),
        UU(T_hubble, 13.7e9 * Y), UU(kg, kg_), UU(mp, 1.67262192e-27 * kg_), UU(km, km_), UU(m, km_ / 1e3), UU(cm, km_ / 1e5), UU(PC, 648000 / pi), UU(Rs, 695700 * km_), UU(Re, 6378 * km_), UU(Rj, 69911 * km_), UU(kms, km_ / s), UU(cms, km_ / 1e5 / s),
        UU(Me, Me_), UU(Mj, 317.8 * Me_), UU(Mmoon, .0123 * Me_)};
    return v;
}
static void units(mc::Case& c, uint64_t i) {
    c.states(), c.transitions();
    auto& v = table();
    auto eq = [](double a, double b) { return std::fabs(a - b) <= 4e-15 * std::fabs(b); };
    if (i < v.size()) {
        auto& u = v[i];
        c.sample(u.name);
        c.check(eq(u.value, u.in), "unit", mc::fmt("%s = %.17g, not %.17g", u.name, u.value, u.in));
        c.check(eq(u.lit, 2.5 * u.value) && eq(u.liti, 3 * u.value), "unit literal", u.name);
    } else {
        c.check(hub::consts::G == 1 && std::fabs(hub::consts::pi - 3.14159265358979323846) < 1e-15, "constants", "G, pi");
        c.check(eq(hub::consts::C, 299792.458 * kms) && eq(hub::consts::kB, 1.38064852e-23 * m * m * kg / sec / sec), "constants", "C, kB");
        c.check(eq(hub::consts::a_jupiter, 5.2044) && eq(hub::consts::a_neptune, 30.11) && eq(hub::consts::a_mercury, .387098) && eq(hub::consts::i_jupiter, 6.09_deg) && hub::consts::e_mercury == .20563, "constants", "planets");
        // a circular orbit of 1 AU around 1 Ms takes one year
        c.check(eq(hub::orbit::period(1., 0., 1.), year), "year", "period of the Earth");
    }
    c.outcome(mc::Hasher()((double)i).h);
}
// ---- stream helpers
static void io(mc::Case& c, uint64_t i) {
    static const double Xs[] = {0, 1.5, -2, 1e100, 1e-7}; 
    static const int Is[] = {0, -7, 12345};
    static const char* const Ss[] = {"a", "bc", "x,y"};
    mc::Dec d(i);
    double x = d.pick(Xs), y = d.pick(Xs);
    int n = d.pick(Is);
    std::string s = d.pick(Ss);
    std::string t = mc::fmt("%g %d %s %g", x, n, s.c_str(), y);
    c.sample(t);
    c.states(), c.transitions(8);
    auto f = [](auto const& v) { std::ostringstream o; o << v; return o.str(); };
    std::ostringstream o1, o2, o3, o4, o5, o6;
    hub::print(o1, x, n, s, y) << '!';
    c.check(o1.str() == f(x) + f(n) + s + f(y) + "!", "print", t + ": " + o1.str());
    hub::print_csv(o2, x, n, s, y) << '!';
    c.check(o2.str() == f(x) + "," + f(n) + "," + s + "," + f(y) + "!", "print_csv", t + ": " + o2.str());
    std::ostringstream o7;
    hub::print_csv(o7, s);
    c.check(o7.str() == s, "print_csv of one", t);
    hub::display(o3, x, n, s, y);
    c.check(o3.str() == f(x) + " " + f(n) + " " + s + " " + f(y) + " ", "display", t + ": " + o3.str());
    std::istringstream is(f(x) + " " + f(n) + "\n" + s + "\t" + f(y));
    double a = 9, b = 9; int k = 9; std::string z;
    hub::input(is, a, k, z, b);
    c.check(a == x && k == n && z == s && b == y, "input", t);
    using hub::operator<<;
    using hub::operator>>;
    o4 << std::make_tuple(x, n, s, y);
    c.check(o4.str() == f(x) + " " + f(n) + " " + s + " " + f(y), "tuple <<", t + ": " + o4.str());
    std::istringstream js(o4.str());
    a = b = 9, k = 9, z = "";
    js >> std::tie(a, k, z, b);
    c.check(a == x && k == n && z == s && b == y, "tuple >>", t);
    o5 << std::array<double, 2>{x, y};
    o6 << std::vector<double>{x, y, x};
    c.check(o5.str() == f(x) + " " + f(y) + " " && o6.str() == f(x) + " " + f(y) + " " + f(x) + " ", "container <<", t);
    std::ostringstream o8;
    o8 << llvm::SmallVector<int, 4>{n, 1};
    c.check(o8.str() == f(n) + " 1 ", "SmallVector <<", t);
    c.outcome(mc::Hasher()((double)i).h);
}
// ---- stellar radii: Schwarzschild radius, 10 km, solar M^0.75, 0.01 Rs M^(-1/3)
template <typename T> static void radii(mc::Case& c, uint64_t i) {
    using hub::stellar::StarType;
    double ratio = std::pow(10., (double)(i % 41) / 5 - 4);
    T m = (T)(ratio * hub::unit::Ms);
    double x = (double)m / hub::unit::Ms, Rs = hub::unit::Rs;
    double bh = hub::stellar::stellar_radius(StarType::BH, m), ns = hub::stellar::stellar_radius(StarType::NS, m), st = hub::stellar::stellar_radius(StarType::STAR, m), wd = hub::stellar::stellar_radius(StarType::WD, m);
    c.states(), c.transitions(4);
    std::string t = mc::fmt("%g solar masses", x);
    c.sample(t);
    auto near = [&](double g, double w, const char* what) { c.check(std::fabs(g / w - 1) < (sizeof(T) < 8 ? 1e-5 : 1e-12), what, t + mc::fmt(": %.17g, expected %.17g", g, w)); };
    // the Schwarzschild radius of the Sun is 2.953 km
    near(bh, 2 * hub::consts::G * (double)m / (hub::consts::C * hub::consts::C), "black hole radius");
    c.check(std::fabs(bh / x / hub::unit::km - 2.953) < 2e-3, "Schwarzschild radius in km", t);
    near(ns, 10 * hub::unit::km, "neutron star radius"), near(st, Rs * std::pow(x, .75), "star radius"), near(wd, .01 * Rs / std::cbrt(x), "white dwarf radius");
    c.outcome(mc::Hasher()(st)(wd).h);
}
int main(int argc, char** argv) {
    setenv("TZ", "UTC", 1), tzset();
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "thorough")) thorough_ = true;
    std::vector<mc::Suite> s;
    auto cnt = [](uint64_t n) { return [n](bool) { return n; }; };
    s.push_back({"config files", "all files of 4 (thorough: 5) lines over 18 lines (keys redefined, blank lines, comments, spaces, tabs, carriage returns, repeated dividers) x 3 dividers x 3 comment characters x last line ended or not x both constructors", [](bool th) { return 36 * mc::ipow(NL, (int)depth(th)); }, config, 15});
    s.push_back({"large config files", "8 key lengths to 300 x 13 value lengths to 70000 x 1, 2, 50 or 1000 keys x with and without comments; the values also as command-line arguments", cnt(8 * 13 * 4 * 2), large, 60});
    s.push_back({"refused", "missing file and keys, unwritable file, 0-4 arguments for 0-3 parameters", cnt(6 + 20), refused, 60});
    s.push_back({"command line", "all sequences of 4 arguments over 11 (numbers, words, empty, containing blanks) x 4 kinds of parameters", cnt(4 * mc::ipow(NA, 4)), command, 15});
    s.push_back({"timer", "all sequences of 6 (thorough: 7) operations start/pause/reset/get_time, each followed by one of 4 delays (0, 1 ns, 1.5 s, 1 day + 1 ns) of a virtual clock", [](bool th) { return mc::ipow(16, th ? 7 : 6); }, timer, 15});
    s.push_back({"names", "all sequences of 6 (thorough: 7) calls of auto_name over 3 prefixes with the clock advancing 0 or 1 s between them", [](bool th) { return mc::ipow(6, th ? 7 : 6); }, names, 15});
    s.push_back({"names in threads", "all sequences of 5 calls of auto_name over 2 prefixes, each in the main thread or in a new one, with the clock advancing 0 or 1 s between them", cnt(mc::ipow(8, 5)), thread_names, 15});
    s.push_back({"units", "every unit with its literals, the constants", cnt(table().size() + 1), units, 15});
    s.push_back({"stellar radii", "4 types x 41 masses from 1e-4 to 1e4 solar masses", cnt(41), radii<double>, 15});
    s.push_back({"stellar radii float", "the same", cnt(41), radii<float>, 15});
    s.push_back({"stream helpers", "print, print_csv, display, input, tuple and container operators over 5x3x3x5 values", cnt(225), io, 15});
    return mc::main(argc, argv, s);
}
