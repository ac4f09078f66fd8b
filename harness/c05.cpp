// C05: Opip/Ipip and their handles with the background thread under the controlled scheduler.
#include <fstream>
#include <memory>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

#include "mcrt.hpp"
#include "multi-thread/ciostream.hpp"

namespace mt = hub::multi_thread;
using mcrt::fail;
static std::string S(long x) { return std::to_string(x); }
static void touch(std::ios const& s) { mcrt::access(&s, true, sizeof(std::ios)); }
struct Rec {
    int t = 0, k = 0;
};
std::ostream& operator<<(std::ostream& o, Rec const& r) {
    touch(o);
    o << r.t << ' ';
    mcrt::yield();
    touch(o);
    o << r.k << '\n';
    return o;
}
std::istream& operator>>(std::istream& i, Rec& r) {
    touch(i);
    i >> r.t;
    mcrt::yield();
    touch(i);
    i >> r.k;
    return i;
}
static std::string fname() { return "c05_" + S(getpid()) + ".txt"; }
static std::string slurp(std::string const& n) {
    std::ifstream in(n);
    return std::string((std::istreambuf_iterator<char>(in)), {});
}
static void verify(std::string const& d, std::vector<int> const& counts) {
    std::vector<int> next(counts.size(), 0);
    size_t p = 0;
    uint64_t h = 5;
    while (p < d.size()) {
        bool hit = false;
        for (size_t t = 0; t < counts.size() && !hit; ++t) {
            std::string e = S(t) + " " + S(next[t]) + "\n";
            if (next[t] < counts[t] && d.compare(p, e.size(), e) == 0) {
                hit = true;
                p += e.size();
                next[t]++;
                h = h * 31 + t;
            }
        }
        if (!hit) fail("opip:content", "records torn, duplicated or out of order: '" + d + "'");
    }
    for (size_t t = 0; t < counts.size(); ++t)
        if (next[t] != counts[t]) fail("opip:lost", "client " + S(t) + " sent " + S(counts[t]) + " records, file has " + S(next[t]) + ": '" + d + "'");
    mcrt::outcome(h);
}
// ---- output
static void out_one(int kind) {
    int n = mcrt::choose(4);
    auto f = fname();
    if (kind == 0) {
        mt::Opip<Rec> p(f.c_str());
        for (int i = 0; i < n; ++i) p << Rec{0, i};
    } else if (kind == 1) {
        mt::Costream<Rec> p(f.c_str());
        for (int i = 0; i < n; ++i) {
            Rec r{0, i};
            p << r;
            r.k = -5;
        }
    } else if (kind == 2) {  // moved handle
        mt::Costream<Rec> p(f);
        if (n) p << Rec{0, 0};
        mt::Costream<Rec> q(std::move(p));
        for (int i = 1; i < n; ++i) q << Rec{0, i};
    } else {  // destroyed by move assignment
        auto f2 = "x" + f;
        mt::Costream<Rec> p(f);
        for (int i = 0; i < n; ++i) p << Rec{0, i};
        {
            p = mt::Costream<Rec>(f2);
            verify(slurp(f), {n});
            unlink(f.c_str());
            p << Rec{0, 0};
        }
        {
            mt::Costream<Rec> z(std::move(p));
        }
        verify(slurp(f2), {1});
        unlink(f2.c_str());
        return;
    }
    verify(slurp(f), {n});
    unlink(f.c_str());
}
static void out_two(int) {
    auto f = fname();
    int a = 1 + mcrt::choose(2), b = 1 + mcrt::choose(2);
    {
        mt::Opip<Rec> p(f.c_str());
        std::thread t([&] { for (int i = 0; i < b; ++i) p << Rec{1, i}; });
        for (int i = 0; i < a; ++i) p << Rec{0, i};
        t.join();
    }
    verify(slurp(f), {a, b});
    unlink(f.c_str());
}
static void out_many(int n) {
    auto f = fname();
    {
        mt::Opip<Rec> p(f.c_str());
        for (int i = 0; i < n; ++i) p << Rec{0, i};
    }
    verify(slurp(f), {n});
    unlink(f.c_str());
}
// ---- input
static std::string make(int n, bool newline) {
    auto f = fname();
    std::ofstream o(f);
    for (int i = 0; i < n; ++i) o << i + 1 << ' ' << (i + 1) * 10 << (i + 1 < n || newline ? "\n" : "");
    return f;
}
static void check_rec(Rec const& r, int i) {
    if (r.t != i || r.k != i * 10) fail("ipip:content", "record " + S(i) + " delivered as (" + S(r.t) + "," + S(r.k) + ")");
}
static void drain(int n, int reads, bool newline, bool handle, bool reads_past) {
    auto f = make(n, newline);
    {
        std::unique_ptr<mt::Ipip<Rec>> p;
        std::unique_ptr<mt::Cistream<Rec>> c, c2;
        if (handle) c.reset(new mt::Cistream<Rec>(f.c_str())), c2.reset(new mt::Cistream<Rec>(*c));
        else p.reset(new mt::Ipip<Rec>(f.c_str()));
        for (int i = 1; i <= reads; ++i) {
            Rec r{-7, -7};
            bool ok = handle ? ((i & 1 ? *c : *c2) >> std::move(r)) : (*p >> std::move(r));
            if (ok != (i <= n)) fail("ipip:end", "read " + S(i) + " of a file with " + S(n) + " records returned " + S(ok));
            if (ok) check_rec(r, i);
        }
        if (handle && mcrt::choose(2)) {  // the last handle keeps the pipe alive
            c.reset();
            Rec r;
            bool ok = *c2 >> std::move(r);
            if (ok != (reads < n)) fail("ipip:end", "read through the remaining handle");
            if (ok) check_rec(r, reads + 1);
        }
    }
    unlink(f.c_str());
    mcrt::outcome(n * 100 + reads);
}
static void in_one(int) {
    int n = mcrt::choose(4), reads = mcrt::choose(n + 3);
    drain(n, reads, true, false, false);
}
static void in_nonl(int) {
    int n = mcrt::choose(3);
    drain(n, n + 2, false, false, false);
}
static void in_handle(int) {
    int n = mcrt::choose(3), reads = mcrt::choose(n + 2);
    drain(n, reads, true, true, false);
}
static void in_chunk(int) {
    static const int N[] = {99, 100, 101, 200, 250};
    int n = N[mcrt::choose(5)];
    static const int M[] = {0, 1, 100, 101, 1000};
    int m = M[mcrt::choose(5)];
    drain(n, m == 1000 ? n + 2 : std::min(m, n), true, false, false);
}
static void in_refill(int) {  // the whole file, reading past several refills
    static const int N[] = {100, 101, 102, 201};
    int n = N[mcrt::choose(4)];
    drain(n, n + 1, true, false, false);
}
static void in_two(int) {
    int n = mcrt::choose(4);
    auto f = make(n, true);
    std::vector<Rec> got[2];
    int ends[2] = {0, 0};
    int per = 1 + mcrt::choose(2);
    {
        mt::Ipip<Rec> p(f.c_str());
        auto rd = [&](int t) {
            for (int i = 0; i < per; ++i) {
                Rec r;
                if (p >> std::move(r)) got[t].push_back(r);
                else ends[t]++;
            }
        };
        std::thread t([&] { rd(1); });
        rd(0);
        t.join();
    }
    unlink(f.c_str());
    std::vector<int> seen(n + 1, 0);
    int total = 0;
    uint64_t h = 1;
    for (int t = 0; t < 2; ++t) {
        int last = 0;
        for (auto& r : got[t]) {
            if (r.t < 1 || r.t > n) fail("ipip:content", "unknown record " + S(r.t));
            check_rec(r, r.t);
            if (seen[r.t]++) fail("ipip:duplicate", "record delivered twice");
            if (r.t < last) fail("ipip:order", "order");
            last = r.t;
            ++total;
            h = h * 17 + t + 2 * r.t;
        }
    }
    if (total != std::min(n, 2 * per) || ends[0] + ends[1] != 2 * per - total) fail("ipip:lost", S(total) + " of " + S(n) + " records delivered by " + S(2 * per) + " reads");
    for (int i = 1; i <= total; ++i)
        if (!seen[i]) fail("ipip:lost", "record " + S(i) + " skipped");
    mcrt::outcome(h);
}
static void in_missing(int) {
    {
        mt::Ipip<Rec> p("/nonexistent_dir_c05/file");
        int m = mcrt::choose(3);
        for (int i = 0; i < m; ++i) {
            Rec r;
            if (p >> std::move(r)) fail("ipip:phantom", "record delivered from a file that does not exist");
        }
    }
}
std::vector<mcrt::Test> mcrt::tests() {
    return {
        {"opip", "0..3 records then destruction", {4, 6}, out_one, 0},
        {"costream", "Costream, 0..3 records", {3, 5}, out_one, 1},
        {"costream_move", "Costream, 0..3 records, handle moved in between", {3, 5}, out_one, 2},
        {"costream_assign", "Costream, 0..3 records, then replaced by move assignment", {3, 4}, out_one, 3},
        {"opip_two_clients", "two client threads sending 1..2 records each", {3, 5}, out_two, 0},
        {"opip_many", "6 records", {3, 4}, out_many, 6},
        {"opip_bulk", "700 records, default schedule", {0, 0}, out_many, 700},
        {"ipip", "files of 0..3 records, 0..n+2 reads, then destruction", {4, 6}, in_one, 0},
        {"ipip_no_final_newline", "files of 0..2 records without final newline", {3, 4}, in_nonl, 0},
        {"ipip_spurious", "files of 0..2 records, one spurious wake-up", {3, 4}, in_nonl, 0, false, false, 1},
        {"cistream", "Cistream and a copy of it, 0..2 records", {3, 5}, in_handle, 0},
        {"ipip_chunk", "files of 99,100,101,200,250 records around the read-ahead size, partially or fully read", {0, 1}, in_chunk, 0, false, false, 0, {3000, 400000}},
        {"ipip_refill", "files of 100,101,102,201 records read completely", {1, 1}, in_refill, 0, false, false, 0, {3000, 3000}},
        {"ipip_two_clients", "two readers, files of 0..3 records", {3, 4}, in_two, 0},
        {"ipip_missing", "file that cannot be opened", {4, 5}, in_missing, 0},
    };
}
