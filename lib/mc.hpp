// mc.hpp - exhaustive bounded enumeration driver used by every sequential harness.
//
// A harness declares suites; a suite is a finite, indexable space of cases (operation sequences, configurations,
// input tuples, fault scripts ...) and a function that executes the real SpaceHub code on one case and compares it
// with a reference model.  The driver runs *every* index of *every* suite, spread over forked workers; a crash, an
// exit of the process (spacehub_abort calls exit) or a hang inside a case is attributed to that case.  Violations
// are re-executed in a fresh process before they are reported.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

inline std::string fmt(const char* f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
inline std::string jesc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 32 || c > 126)
            o += fmt("\\u%04x", c);
        else
            o += c;
    }
    return o;
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}
inline uint64_t hash(std::string const& s) { return fnv(s.data(), s.size()); }
struct Hasher {
    uint64_t h = 1469598103934665603ULL;
    template <typename T>
    Hasher& operator()(T const& v) {
        if constexpr (std::is_same_v<T, long double>) {
            double d = (double)v;
            h = fnv(&d, sizeof d, h);
        } else {
            static_assert(std::is_trivially_copyable_v<T>);
            h = fnv(&v, sizeof v, h);
        }
        return *this;
    }
};

// mixed radix decoder of a case index
struct Dec {
    uint64_t v;
    explicit Dec(uint64_t i) : v(i) {}
    uint64_t operator()(uint64_t radix) {
        uint64_t r = v % radix;
        v /= radix;
        return r;
    }
    template <typename C>
    auto const& pick(C const& c) {
        return c[(*this)(std::size(c))];
    }
};
inline uint64_t ipow(uint64_t b, unsigned e) {
    uint64_t r = 1;
    while (e--) r *= b;
    return r;
}
// number of sequences over an alphabet of size k with length 0..d ; and decoding of the i-th of them
inline uint64_t nseq(uint64_t k, unsigned d) {
    uint64_t s = 0, p = 1;
    for (unsigned i = 0; i <= d; ++i, p *= k) s += p;
    return s;
}
inline std::vector<int> seq(uint64_t i, uint64_t k) {
    unsigned len = 0;
    uint64_t p = 1;
    while (i >= p) i -= p, p *= k, ++len;
    std::vector<int> r(len);
    for (unsigned j = 0; j < len; ++j) r[j] = (int)(i % k), i /= k;
    return r;
}

struct Shared {
    std::atomic<uint64_t> next, states, transitions, cases;
    std::atomic<uint32_t> nviol;
    struct W {
        std::atomic<uint64_t> cur, end, beat;
        std::atomic<uint32_t> busy;
    } w[64];
};

class Case {
   public:
    bool thorough = false, verbose = false;
    uint64_t idx = 0;
    // report a violation. `key` names the failing input / call site (stable across runs, used for known findings).
    void fail(std::string const& key, std::string const& what) {
        if (failed_.size() < 8) failed_.push_back({key, what});
    }
    bool check(bool ok, std::string const& key, std::string const& what = "") {
        if (!ok) fail(key, what);
        return ok;
    }
    void states(uint64_t n = 1) { states_ += n; }
    void transitions(uint64_t n = 1) { trans_ += n; }
    void outcome(uint64_t h) {
        if (out_ && out_->size() < (1u << 20)) out_->insert(h);
    }
    void sample(std::string const& s) {
        if (sample_.empty()) sample_ = s;
    }
    std::vector<std::pair<std::string, std::string>> failed_;
    uint64_t states_ = 0, trans_ = 0;
    std::unordered_set<uint64_t>* out_ = nullptr;
    std::string sample_;
};

struct Suite {
    std::string name;
    std::string bounds;                              // human readable bounds of the enumerated space
    std::function<uint64_t(bool)> size;              // number of cases for quick/thorough
    std::function<void(Case&, uint64_t)> run;        // executes case
    double case_timeout = 15;                        // seconds
};

namespace detail {
inline double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}
inline void* shm(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    return p;
}
inline void silence() {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    if (!getenv("MC_STDERR")) dup2(fd, 2);
}
struct Viol {
    std::string suite;
    uint64_t idx;
    std::string key, what;
    std::string hist{};  // cases the worker process had executed before this one: "a-b,c-d,..."
    bool confirmed = false;
};
using Ranges = std::vector<std::pair<uint64_t, uint64_t>>;
inline Ranges parse_ranges(std::string const& s) {
    Ranges r;
    for (size_t p = 0; p < s.size();) {
        char* e;
        uint64_t a = strtoull(s.c_str() + p, &e, 10), b = a + 1;
        if (*e == '-') b = strtoull(e + 1, &e, 10);
        r.push_back({a, b});
        p = e - s.c_str();
        if (p < s.size() && s[p] == ',') ++p;
        else break;
    }
    return r;
}
inline std::string show_ranges(Ranges const& r) {
    std::string o;
    for (auto& x : r)
        if (x.first < x.second)
            o += fmt("%s%llu-%llu", o.empty() ? "" : ",", (unsigned long long)x.first, (unsigned long long)x.second);
    return o;
}
// the last n cases of a history
inline Ranges suffix(Ranges const& r, uint64_t n) {
    Ranges o;
    for (size_t i = r.size(); i-- > 0 && n > 0;) {
        uint64_t len = r[i].second - r[i].first, k = std::min(len, n);
        o.insert(o.begin(), {r[i].second - k, r[i].second});
        n -= k;
    }
    return o;
}
// run one case in a forked child (after the cases `pre`, for violations that depend on what the process did before);
// returns violations found ("crash"/"hang" included)
inline std::vector<std::pair<std::string, std::string>> run_isolated(Suite const& s, uint64_t idx, bool thorough,
                                                                    bool verbose, Ranges const& pre = {},
                                                                    double pre_time = 0) {
    int pfd[2];
    if (pipe(pfd)) abort();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        close(pfd[0]);
        if (!verbose) silence();
        for (auto& r : pre)
            for (uint64_t k = r.first; k < r.second; ++k) {
                Case q;
                q.thorough = thorough;
                q.idx = k;
                s.run(q, k);
            }
        Case c;
        c.thorough = thorough;
        c.verbose = verbose;
        c.idx = idx;
        s.run(c, idx);
        std::string o;
        for (auto& f : c.failed_) o += f.first + "\x01" + f.second + "\x02";
        o += "\x03";
        size_t off = 0;
        while (off < o.size()) {
            ssize_t k = write(pfd[1], o.data() + off, o.size() - off);
            if (k <= 0) break;
            off += k;
        }
        _exit(0);
    }
    close(pfd[1]);
    std::string got;
    double t0 = now();
    bool hang = false;
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    for (;;) {
        char buf[65536];
        ssize_t k = read(pfd[0], buf, sizeof buf);
        if (k > 0) {
            got.append(buf, k);
            continue;
        }
        if (k == 0) break;
        if (now() - t0 > s.case_timeout + pre_time) {
            hang = true;
            kill(pid, SIGKILL);
            break;
        }
        usleep(2000);
    }
    close(pfd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::vector<std::pair<std::string, std::string>> r;
    size_t p = 0;
    while (true) {
        size_t a = got.find('\x01', p), b = got.find('\x02', p);
        if (a == std::string::npos || b == std::string::npos) break;
        r.push_back({got.substr(p, a - p), got.substr(a + 1, b - a - 1)});
        p = b + 1;
    }
    if (hang)
        r.push_back({"hang", fmt("case does not terminate within %.0f s", s.case_timeout)});
    else if (got.find('\x03') == std::string::npos)
        r.push_back({"crash", WIFSIGNALED(st) ? fmt("process killed by signal %d", WTERMSIG(st))
                                              : fmt("process exited prematurely with status %d", WEXITSTATUS(st))});
    return r;
}
}  // namespace detail

inline int main(int argc, char** argv, std::vector<Suite> suites) {
    using namespace detail;
    bool thorough = false, list = false;
    std::string out = "/dev/stdout", replay, only;
    int W = 8;
    double budget = 1e9;
    double soft = 1e9;  // once something has failed, the search goes on no longer than this
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
        else if (a == "--out") out = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--suite") only = argv[++i];
        else if (a == "--workers") W = atoi(argv[++i]);
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--soft") soft = atof(argv[++i]);
        else if (a == "--list") list = true;
    }
    if (list) {
        for (auto& s : suites) printf("%-40s quick=%llu thorough=%llu  %s\n", s.name.c_str(),
                   (unsigned long long)s.size(false), (unsigned long long)s.size(true), s.bounds.c_str());
        return 0;
    }
    if (!replay.empty()) {
        auto p = replay.rfind(':');
        std::string nm = replay.substr(0, p);
        Ranges pre = parse_ranges(replay.substr(p + 1));  // "IDX" or "a-b,c-d,IDX": history, then the case
        if (pre.empty()) return 2;
        uint64_t idx = pre.back().first;
        pre.pop_back();
        for (auto& s : suites)
            if (s.name == nm) {
                auto v = run_isolated(s, idx, thorough, true, pre, 300);
                for (auto& x : v) printf("REPLAY %s:%llu key=%s: %s\n", nm.c_str(), (unsigned long long)idx, x.first.c_str(), x.second.c_str());
                printf("REPLAY %s\n", v.empty() ? "no violation" : "violation reproduced");
                return v.empty() ? 0 : 1;
            }
        fprintf(stderr, "no such suite %s\n", nm.c_str());
        return 2;
    }
    struct SR {
        std::string name, bounds, sample;
        uint64_t cases, states, trans, distinct;
        bool complete;
        double wall;
    };
    std::vector<SR> results;
    std::vector<Viol> viols;
    double T0 = now(), hist_time = 0;
    bool bad = false;
    for (auto& s : suites) {
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        uint64_t N = s.size(thorough);
        double ts0 = now();
        auto* sh = (Shared*)shm(sizeof(Shared));
        new (sh) Shared();
        char tmpl[] = "/tmp/mcviolXXXXXX";
        int vfd = mkstemp(tmpl);
        int w = (int)std::min<uint64_t>(W, std::max<uint64_t>(N, 1));
        uint64_t chunk = std::max<uint64_t>(1, std::min<uint64_t>(N / (w * 16 + 1), 5000));
        std::vector<pid_t> pids(w, 0);
        std::vector<std::string> ofile(w);
        for (int i = 0; i < w; ++i) ofile[i] = fmt("%s.o%d", tmpl, i);
        unsigned gen = 0;
        std::vector<std::string> ofiles;
        std::string sfile = std::string(tmpl) + ".sample";
        auto spawn = [&](int i) {
            fflush(nullptr);
            std::string of = fmt("%s.o%d", tmpl, gen++);
            ofiles.push_back(of);
            sh->w[i].beat++;
            pid_t pid = fork();
            if (pid) {
                pids[i] = pid;
                return;
            }
            silence();
            std::unordered_set<uint64_t> outs;
            auto& me = sh->w[i];
            bool sampled = false;
            Ranges hist;
            for (;;) {
                uint64_t a = me.cur, b = me.end;
                if (a >= b) {
                    a = sh->next.fetch_add(chunk);
                    if (a >= N || sh->nviol > 40) break;
                    b = std::min(N, a + chunk);
                    me.cur = a;
                    me.end = b;
                }
                hist.push_back({a, a});
                for (; a < b && sh->nviol <= 40; ++a) {
                    me.cur = a;
                    hist.back().second = a;
                    me.beat++;
                    me.busy = 1;
                    Case c;
                    c.thorough = thorough;
                    c.idx = a;
                    c.out_ = &outs;
                    s.run(c, a);
                    me.busy = 0;
                    sh->cases++;
                    sh->states += c.states_;
                    sh->transitions += c.trans_;
                    if (!sampled && !c.sample_.empty() && (a == 0 || a >= N / 2)) {
                        sampled = true;
                        if (FILE* f = fopen(sfile.c_str(), "w")) {
                            fprintf(f, "[%s:%llu] %s", s.name.c_str(), (unsigned long long)a, c.sample_.c_str());
                            fclose(f);
                        }
                    }
                    for (auto& f : c.failed_) {
                        sh->nviol++;
                        std::string l = fmt("%llu\x01", (unsigned long long)a) + f.first + "\x01" + f.second + "\x01" + show_ranges(hist) + "\x02";
                        if (write(vfd, l.data(), l.size()) < 0) _exit(9);
                    }
                }
                hist.back().second = a;
                me.cur = b;
                if (sh->nviol > 40) break;
            }
            if (FILE* f = fopen(of.c_str(), "w")) {
                for (auto h : outs) fwrite(&h, 8, 1, f);
                fclose(f);
            }
            _exit(0);
        };
        std::vector<uint64_t> lastbeat(w, 0);
        std::vector<double> lastt(w, now());
        std::vector<Viol> sv;
        for (int i = 0; i < w; ++i) spawn(i);
        int alive = w;
        bool cut = false, hung = false;
        while (alive > 0) {
            bool any = false;
            for (int i = 0; i < w; ++i) {
                if (!pids[i]) continue;
                int st;
                pid_t r = waitpid(pids[i], &st, WNOHANG);
                auto& me = sh->w[i];
                if (r == pids[i]) {
                    any = true;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !me.busy) {
                        pids[i] = 0;
                        --alive;
                    } else {  // died inside a case
                        sv.push_back({s.name, me.cur, "crash",
                                      WIFSIGNALED(st) ? fmt("process killed by signal %d", WTERMSIG(st))
                                                      : fmt("process exited prematurely with status %d", WEXITSTATUS(st))});
                        sh->nviol++;
                        me.busy = 0;
                        me.cur++;
                        sh->cases++;
                        if (sh->nviol > 40) pids[i] = 0, --alive;
                        else spawn(i), lastt[i] = now();
                    }
                    continue;
                }
                if (me.beat != lastbeat[i]) {
                    lastbeat[i] = me.beat;
                    lastt[i] = now();
                } else if (now() - lastt[i] > s.case_timeout && me.busy) {
                    kill(pids[i], SIGKILL);
                    waitpid(pids[i], &st, 0);
                    sv.push_back({s.name, me.cur, "hang", fmt("case does not terminate within %.0f s", s.case_timeout)});
                    sh->nviol += 41, hung = true;
                    me.busy = 0;
                    me.cur++;
                    sh->cases++;
                    if (sh->nviol > 40) pids[i] = 0, --alive;
                    else spawn(i), lastt[i] = now();
                }
            }
            if (!any) usleep(3000);
            if ((now() - T0 > budget || (now() - T0 > soft && (sh->nviol > 0 || bad))) && !cut) {
                cut = true;
                sh->next = N;  // stop handing out chunks
                for (int i = 0; i < w; ++i) sh->w[i].end = (uint64_t)sh->w[i].cur;
            }
        }
        // collect
        std::set<uint64_t> distinct;
        for (auto& of : ofiles) {
            if (FILE* f = fopen(of.c_str(), "r")) {
                uint64_t h;
                while (fread(&h, 8, 1, f) == 1) distinct.insert(h);
                fclose(f);
                unlink(of.c_str());
            }
        }
        std::string sample;
        if (FILE* f = fopen(sfile.c_str(), "r")) {
            char b[2048];
            size_t k = fread(b, 1, sizeof b, f);
            sample.assign(b, k);
            fclose(f);
            unlink(sfile.c_str());
        }
        {
            lseek(vfd, 0, SEEK_SET);
            std::string got;
            char b[65536];
            ssize_t k;
            while ((k = read(vfd, b, sizeof b)) > 0) got.append(b, k);
            close(vfd);
            unlink(tmpl);
            size_t p = 0;
            while (true) {
                size_t e = got.find('\x02', p);
                if (e == std::string::npos) break;
                std::string l = got.substr(p, e - p);
                p = e + 1;
                size_t a = l.find('\x01'), c = l.find('\x01', a + 1);
                size_t h = l.rfind('\x01');
                if (a == std::string::npos || c == std::string::npos || h <= c) continue;
                sv.push_back({s.name, strtoull(l.c_str(), nullptr, 10), l.substr(a + 1, c - a - 1),
                              l.substr(c + 1, h - c - 1), l.substr(h + 1)});
            }
        }
        // one violation per distinct key, confirmed by re-execution in a fresh process
        std::map<std::string, Viol> bykey;
        for (auto& v : sv) {
            auto it = bykey.find(v.key);
            if (it == bykey.end() || v.idx < it->second.idx) bykey[v.key] = v;
        }
        int n = 0;
        for (auto& kv : bykey) {
            if (n++ > 12 || (bad && now() - T0 > soft + 60)) break;
            auto v = kv.second;
            for (int t = 0; t < (v.key == "hang" ? 1 : 2) && !v.confirmed; ++t)
                for (auto& x : run_isolated(s, v.idx, thorough, false))
                    if (x.first == v.key) v.confirmed = true, v.what = x.second, v.hist.clear();
            // not reproduced alone: repeat it after the last 1, 8, 64, ... cases of the worker that saw it
            Ranges h = parse_ranges(v.hist);
            uint64_t all = 0;
            for (auto& r : h) all += r.second - r.first;
            for (uint64_t k = 1; !v.confirmed && all > 0 && hist_time < 200; k *= 8) {
                double th = now();
                auto pre = suffix(h, k);
                for (auto& x : run_isolated(s, v.idx, thorough, false, pre, 200))
                    if (x.first == v.key) v.confirmed = true, v.what = x.second + " [after the cases " + show_ranges(pre) + " in the same process]", v.hist = show_ranges(pre);
                hist_time += now() - th;
                if (k >= all) break;
            }
            if (!v.confirmed) v.hist.clear();
            bad = bad || v.confirmed;
            viols.push_back(v);
        }
        results.push_back({s.name, s.bounds, sample, sh->cases, sh->states, sh->transitions, distinct.size(),
                           sh->cases == N, now() - ts0});
        munmap(sh, sizeof(Shared));
        if (hung || (bad && now() - T0 > soft)) break;  // a hang is a violation already; do not pay for it in every suite
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"suites\":[");
    for (size_t i = 0; i < results.size(); ++i) {
        auto& r = results[i];
        fprintf(f, "%s{\"name\":\"%s\",\"bounds\":\"%s\",\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"distinct\":%llu,\"complete\":%s,\"sample\":\"%s\",\"wall_s\":%.2f}",
                i ? "," : "", jesc(r.name).c_str(), jesc(r.bounds).c_str(), (unsigned long long)r.cases,
                (unsigned long long)r.states, (unsigned long long)r.trans, (unsigned long long)r.distinct,
                r.complete ? "true" : "false", jesc(r.sample).c_str(), r.wall);
    }
    fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < viols.size(); ++i) {
        auto& v = viols[i];
        fprintf(f, "%s{\"suite\":\"%s\",\"case\":\"%s%s%llu\",\"key\":\"%s\",\"what\":\"%s\",\"confirmed\":%s}", i ? "," : "",
                jesc(v.suite).c_str(), v.hist.c_str(), v.hist.empty() ? "" : ",", (unsigned long long)v.idx, jesc(v.key).c_str(), jesc(v.what).c_str(),
                v.confirmed ? "true" : "false");
    }
    fprintf(f, "]}\n");
    fclose(f);
    return viols.empty() ? 0 : 1;
}
}  // namespace mc
// detection idiom usable in C++17: MC_HAS(Type, expression in q)
namespace mc {
template <typename T, typename F>
constexpr bool can(F) { return std::is_invocable_v<F, T&>; }
}
#define MC_HAS(T, ...) (mc::can<T>([](auto& q) -> decltype((void)(__VA_ARGS__)) {}))
