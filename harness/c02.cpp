// C02: ConcurrentFile under the controlled scheduler, writing to / reading from an instrumented in-memory stream buffer.
#include <atomic>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <streambuf>
#include <string>
#include <thread>
#include <tuple>
#include <unistd.h>
#include <vector>

#include "mcrt.hpp"
#include "multi-thread/multi-thread.hpp"

namespace mt = hub::multi_thread;
using mcrt::fail;
static std::string S(long x) { return std::to_string(x); }

// every operation on the stream is visible to the race detector and can be interrupted in its middle
struct Buf : std::streambuf {
    long cell = 0;
    std::string data;
    size_t rpos = 0;
    int syncs = 0;
    int overflow(int c) override {
        mcrt::access(&cell, true);
        { mcrt::Ignore g; data += (char)c; }
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override {
        mcrt::access(&cell, true);
        mcrt::yield();
        mcrt::access(&cell, true);
        { mcrt::Ignore g; data.append(s, n); }
        return n;
    }
    int underflow() override {
        mcrt::access(&cell, true);
        return rpos < data.size() ? (unsigned char)data[rpos] : EOF;
    }
    int uflow() override {
        mcrt::access(&cell, true);
        return rpos < data.size() ? (unsigned char)data[rpos++] : EOF;
    }
    int sync() override {
        mcrt::access(&cell, true);
        mcrt::yield();
        mcrt::access(&cell, true);
        ++syncs;
        return 0;
    }
};
static void touch(std::ios const& s) { mcrt::access(&s, true, sizeof(std::ios)); }
struct Rec {
    int t = 0, k = 0;
};
std::ostream& operator<<(std::ostream& o, Rec const& r) {
    touch(o);
    o << std::string("[");
    mcrt::yield();
    touch(o);
    o << std::string(S(r.t) + ":" + S(r.k));
    mcrt::yield();
    o << std::string("]");
    touch(o);
    return o;
}
std::istream& operator>>(std::istream& i, Rec& r) {
    touch(i);
    i >> r.t;
    mcrt::yield();
    touch(i);
    i >> r.k;
    mcrt::yield();
    touch(i);
    return i;
}
struct World {
    std::string fname = "c02_" + S(getpid()) + ".txt";
    Buf buf;
    mt::ConcurrentFile f;
    World() : f(mt::make_thread_safe_fstream(fname, std::ios::in | std::ios::out | std::ios::trunc)) {
        unlink(fname.c_str());
        f.execute([&](std::fstream& s) { static_cast<std::ios&>(s).rdbuf(&buf); });
    }
    ~World() {}
};
// the file must be a concatenation of the complete expected tokens, per thread in order
static void verify(std::string const& data, std::vector<std::vector<std::string>> const& exp) {
    std::vector<size_t> pos(exp.size(), 0);
    size_t p = 0;
    uint64_t h = 7;
    while (p < data.size()) {
        bool found = false;
        for (size_t t = 0; t < exp.size() && !found; ++t)
            if (pos[t] < exp[t].size() && data.compare(p, exp[t][pos[t]].size(), exp[t][pos[t]]) == 0) {
                p += exp[t][pos[t]++].size();
                found = true;
                h = h * 31 + t;
            }
        if (!found) fail("file:content", "records torn, reordered, duplicated or unexpected: '" + data + "' at " + S(p));
    }
    for (size_t t = 0; t < exp.size(); ++t)
        if (pos[t] != exp[t].size()) fail("file:content", "record of thread " + S(t) + " missing: '" + data + "'");
    mcrt::outcome(h);
}
static std::string tok(int t, int k) { return "[" + S(t) + ":" + S(k) + "]"; }
enum { W_REC, W_TUPLE, W_EXEC, W_FLUSH, W_EOF, W_CHAIN, W_EXECV, NW };
static void do_op(mt::ConcurrentFile& f, int op, int t, int k, std::vector<std::string>& exp) {
    switch (op) {
        case W_REC: f << Rec{t, k}; exp.push_back(tok(t, k)); break;
        case W_TUPLE: f << std::make_tuple(Rec{t, k}, 7, Rec{t, k}); exp.push_back(tok(t, k) + " 7 " + tok(t, k)); break;
        case W_EXEC: {
            int before = 5;
            int r = f.execute([&](std::fstream& s, int a, int b) { s << Rec{t, a}; mcrt::yield(); s << Rec{t, b}; return a * 10 + b + before; }, k, k + 1);
            if (r != k * 10 + k + 1 + 5) fail("execute:result", "execute returned " + S(r));
            exp.push_back(tok(t, k) + tok(t, k + 1));
            break;
        }
        case W_FLUSH: f.flush(); break;
        case W_EOF: if (f.eof()) fail("eof:value", "eof reported on a stream that was only written"); break;
        case W_CHAIN: f << Rec{t, k} << Rec{t, k + 1}; exp.push_back(tok(t, k)); exp.push_back(tok(t, k + 1)); break;
        case W_EXECV: f.execute([&](std::fstream& s) { s << Rec{t, k}; }); exp.push_back(tok(t, k)); break;
    }
}
static void writers(int shape) {
    // shape: number of ops for threads a,b,(c)
    World w;
    std::vector<std::vector<int>> prog;
    if (shape == 0) prog = {{mcrt::choose(NW), mcrt::choose(NW)}, {mcrt::choose(NW)}};
    if (shape == 1) prog = {{mcrt::choose(3)}, {mcrt::choose(4)}, {mcrt::choose(5)}};
    if (shape == 2) prog = {{mcrt::choose(NW), mcrt::choose(NW)}, {mcrt::choose(NW), mcrt::choose(NW)}};
    std::vector<std::vector<std::string>> exp(prog.size());
    std::vector<std::thread> th;
    int flushes = 0;
    for (size_t t = 0; t < prog.size(); ++t) {
        auto& e = exp[t];
        auto& pr = prog[t];
        for (int o : pr) flushes += o == W_FLUSH;
        if (t % 2 == 0) th.emplace_back([&w, &e, &pr, t] { for (size_t i = 0; i < pr.size(); ++i) do_op(w.f, pr[i], (int)t, (int)i * 4 + 1, e); });
        else {  // through a copy of the handle
            mt::ConcurrentFile c = w.f;
            th.emplace_back([c, &e, &pr, t]() mutable { for (size_t i = 0; i < pr.size(); ++i) do_op(c, pr[i], (int)t, (int)i * 4 + 1, e); });
        }
    }
    for (auto& x : th) x.join();
    if (w.buf.syncs < flushes) fail("flush:effect", "flush did not reach the stream");
    verify(w.buf.data, exp);
}
static void readers(int nthr) {
    World w;
    const int N = mcrt::choose(5);  // number of records in the file
    for (int i = 0; i < N; ++i) w.buf.data += S(i + 1) + " " + S((i + 1) * 10) + " ";
    while (!w.buf.data.empty() && w.buf.data.back() == ' ') w.buf.data.pop_back();
    int per = nthr == 2 ? 1 + mcrt::choose(3) : 1;
    std::vector<std::vector<Rec>> got(nthr);
    std::vector<int> fails(nthr, 0);
    std::vector<std::thread> th;
    for (int t = 0; t < nthr; ++t) {
        auto* g = &got[t];
        int* fl = &fails[t];
        mt::ConcurrentFile c = w.f;
        bool copy = t % 2;
        th.emplace_back([&w, c, g, fl, per, copy]() mutable {
            for (int i = 0; i < per; ++i) {
                Rec r;
                bool ok = copy ? (c >> r) : (w.f >> r);
                if (ok) g->push_back(r);
                else {
                    ++*fl;
                    if (!w.f.eof()) fail("eof:value", "failed read at the end of the file but eof() is false");
                }
            }
        });
    }
    for (auto& x : th) x.join();
    std::vector<int> seen(N + 1, 0);
    int total = 0, nf = 0;
    uint64_t h = 3;
    for (int t = 0; t < nthr; ++t) {
        int last = 0;
        nf += fails[t];
        for (auto& r : got[t]) {
            if (r.t < 1 || r.t > N || r.k != r.t * 10) fail("read:torn", "read record (" + S(r.t) + "," + S(r.k) + ") which is not in the file");
            if (seen[r.t]++) fail("read:duplicate", "record " + S(r.t) + " delivered twice");
            if (r.t < last) fail("read:order", "records of one reader out of order");
            last = r.t;
            ++total;
            h = h * 37 + t * 5 + r.t;
        }
    }
    if (total != std::min(N, nthr * per)) fail("read:lost", S(total) + " records delivered by " + S(nthr * per) + " reads of a file with " + S(N));
    if (nf != nthr * per - total) fail("read:status", "wrong status");
    mcrt::outcome(h);
}
static void mixed(int) {  // a reader and a writer on one handle via execute, eof and flush in between
    World w;
    std::vector<std::string> e;
    std::thread a([&] { w.f.execute([](std::fstream& s) { touch(s); s << Rec{1, 1}; mcrt::yield(); touch(s); }); });
    mt::ConcurrentFile c = w.f;
    std::thread b([c]() mutable { c.flush(); (void)c.eof(); });
    a.join();
    b.join();
    if (w.buf.data != "[1:1]") fail("file:content", w.buf.data);
}
static void throwing(int) {  // a function given to execute throws: the file stays usable from every thread
    World w;
    std::vector<std::vector<std::string>> exp(2);
    int where = mcrt::choose(2);
    mt::ConcurrentFile c = w.f;
    std::thread a([&w, &exp, where] {
        bool caught = false;
        try {
            w.f.execute([&](std::fstream& s, int k) -> int {
                if (where) { s << Rec{0, k}; mcrt::yield(); }
                throw k;
            }, 1);
        } catch (int k) { caught = k == 1; }
        if (!caught) fail("execute:exception", "the exception of the executed function did not reach the caller");
        if (where) exp[0].push_back(tok(0, 1));
        do_op(w.f, W_REC, 0, 3, exp[0]);
    });
    std::thread b([c, &exp]() mutable { do_op(c, W_EXEC, 1, 1, exp[1]); do_op(c, W_FLUSH, 1, 0, exp[1]); });
    a.join();
    b.join();
    if (w.f.eof()) fail("eof:value", "eof reported on a stream that was only written");
    verify(w.buf.data, exp);
}
static void bulk(int n) {  // many records from two threads, one through a copied handle
    World w;
    std::vector<std::vector<std::string>> exp(2);
    mt::ConcurrentFile c = w.f;
    std::thread a([&] { for (int i = 0; i < n; ++i) do_op(w.f, i % 2 ? W_REC : W_TUPLE, 0, i, exp[0]); });
    std::thread b([&, c]() mutable { for (int i = 0; i < n; ++i) do_op(c, i % 3 ? W_CHAIN : W_EXEC, 1, i, exp[1]); });
    a.join();
    b.join();
    verify(w.buf.data, exp);
}
static void bulk_read(int n) {  // many records, read one by one through two handles
    World w;
    for (int i = 0; i < n; ++i) w.buf.data += (i ? " " : "") + S(i + 1) + " " + S((i + 1) * 10);
    mt::ConcurrentFile c = w.f;
    Rec r;
    for (int i = 0; i < n; ++i) {
        if (!(i % 2 ? (c >> r) : (w.f >> r))) fail("read:lost", "record " + S(i + 1) + " of " + S(n) + " not delivered");
        if (r.t != i + 1 || r.k != (i + 1) * 10) fail("read:order", "record " + S(i + 1) + " is (" + S(r.t) + "," + S(r.k) + ")");
    }
    if (w.f >> r) fail("read:status", "a record after the last one");
}
static void realfile(int) {  // through a real file, all handle copies gone at the end
    std::string name = "c02r_" + S(getpid()) + ".txt";
    std::vector<std::vector<std::string>> exp(2);
    {
        mt::ConcurrentFile f(name.c_str(), std::ios::out);
        mt::ConcurrentFile g = f;
        std::thread a([&, f]() mutable { do_op(f, W_REC, 0, 1, exp[0]); do_op(f, W_FLUSH, 0, 2, exp[0]); do_op(f, W_REC, 0, 3, exp[0]); });
        std::thread b([&] { do_op(g, W_TUPLE, 1, 1, exp[1]); do_op(g, W_REC, 1, 2, exp[1]); });
        a.join();
        b.join();
    }
    std::ifstream in(name);
    std::string d((std::istreambuf_iterator<char>(in)), {});
    unlink(name.c_str());
    verify(d, exp);
}
std::vector<mcrt::Test> mcrt::tests() {
    return {
        {"writers_2+1", "2 threads, 2+1 operations, all programs over {record, tuple, execute, flush, eof, chained <<, void execute}, one through a copied handle", {1, 2}, writers, 0},
        {"writers_1+1+1", "3 threads, 1 operation each", {1, 2}, writers, 1},
        {"writers_2+2", "2 threads, 2+2 operations, all programs", {0, 1}, writers, 2},
        {"readers_2", "2 readers x 1..3 reads of a file with 0..4 records, with eof() queries", {1, 2}, readers, 2},
        {"readers_3", "3 readers x 1 read of a file with 0..4 records", {1, 2}, readers, 3},
        {"mixed", "execute against flush/eof through a copy", {3, 5}, mixed, 0},
        {"throwing", "execute with a function that throws, against execute and flush through a copy", {3, 5}, throwing, 0},
        {"bulk_write", "two threads writing 60 records and tuples each", {0, 0}, bulk, 60},
        {"bulk_read", "1500 records read through two handles", {0, 0}, bulk_read, 1500},
        {"realfile", "two threads writing to a real file through copies, destroyed at the end", {2, 3}, realfile, 0},
    };
}
