// Bounded exhaustive explorer: the case loop, the counters, the watchdog and
// the violation records shared by every harness in this directory.
//
// A harness enumerates a finite space of cases in a fixed order.  Every case is
// opened with mc::begin(...), which numbers it and says whether this shard runs
// it; a disagreement between the real code and the reference is reported with
// mc::fail(...).  Nothing is sampled: the union of the shards is the space.
#ifndef MC_HPP
#define MC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <iostream>
#include <functional>
#include <stdexcept>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <new>

namespace mc {
    struct Global {
        int shard = 0, nshards = 1;
        bool thorough = false;
        long only = -1;        // run this case alone
        long upto = -1;        // run cases up to and including this one
        long stride = 1;       // run only every stride-th case of the shard
        long idx = -1;         // number of the current case
        long ntidx = -1;
        uint64_t cases = 0;    // cases run by this shard
        uint64_t states = 0, transitions = 0, traces = 0, nontrivial = 0;
        std::map<std::string, uint64_t> counters;
        std::map<std::string, std::set<std::string>> outcomes;
        std::vector<std::string> samples;
        int violations = 0;
        int maxviol = 3;
        FILE *out = nullptr;
        unsigned char fill = 0xA5;
        const char *unit = "";
        uint64_t hb_last = ~0ull;
        int hb_still = 0;
        int hang_ticks = 4;    // times 10 s of CPU time
    };
    extern Global g;
    // the current case, kept cheap: a tag and up to 10 numbers
    struct Cur { const char *tag; int n; int64_t a[12]; std::string text; };
    extern Cur cur;
    extern volatile uint64_t heartbeat;

    inline std::string json(const std::string& s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r + "\"";
    }
    inline std::string describe() {
        std::ostringstream ss;
        ss << cur.tag;
        for (int i = 0; i < cur.n; i++) ss << (i ? "," : "(") << cur.a[i];
        if (cur.n) ss << ")";
        if (!cur.text.empty()) ss << " " << cur.text;
        return ss.str();
    }
    // open a case; returns true when this shard is to run it
    template<class... A> inline bool begin(const char *tag, A... a) {
        long i = ++g.idx;
        if (i % g.nshards != g.shard) return false;
        if (g.only >= 0 && i != g.only) return false;
        if (g.upto >= 0 && i > g.upto) return false;
        if (g.stride > 1 && (i / g.nshards) % g.stride) return false;
        cur.tag = tag;
        cur.n = int(sizeof...(A));
        int64_t v[sizeof...(A) + 1] = { int64_t(a)..., 0 };
        for (int k = 0; k < cur.n && k < 12; k++) cur.a[k] = v[k];
        if (!cur.text.empty()) cur.text.clear();
        g.cases++;
        heartbeat = heartbeat + 1;
        return true;
    }
    inline void text(const std::string& s) { cur.text = s; }
    inline void state(uint64_t n = 1) { g.states += n; }
    inline void trans(uint64_t n = 1) { g.transitions += n; }
    inline void trace(uint64_t n = 1) { g.traces += n; heartbeat = heartbeat + 1; }
    inline void nontrivial() { if (g.ntidx != g.idx) { g.ntidx = g.idx; g.nontrivial++; } }   // at most once a case
    inline void count(const char *k, uint64_t n = 1) { g.counters[k] += n; }
    inline void outcome(const char *k, const std::string& v) {
        auto& s = g.outcomes[k];
        if (s.size() < 4096) s.insert(v);
    }
    inline void outcome(const char *k, long v) { outcome(k, std::to_string(v)); }
    inline void sample(const std::string& s) { if (g.samples.size() < 3) g.samples.push_back(s); }
    inline bool want_sample() { return g.samples.size() < 3; }
    // key: what identifies this failure for the known-findings file
    void fail(const std::string& key, const std::string& msg);
    template<class A, class B>
    inline bool eq(const char *key, const A& want, const B& got, const std::string& what) {
        if (want == got) return true;
        std::ostringstream ss;
        ss << what << ": expected " << want << ", got " << got;
        fail(key, ss.str());
        return false;
    }
    inline bool ok(const char *key, bool c, const std::string& what) {
        if (!c) fail(key, what);
        return c;
    }
    // run f, turning anything it throws into a violation of the current case
    template<class F> inline bool guarded(const char *key, F f) {
        try { f(); return true; }
        catch (const std::exception& e) { fail(key, std::string("exception: ") + e.what()); }
        catch (std::exception *e) { fail(key, std::string("exception pointer: ") + e->what()); }
        catch (const char *e) { fail(key, std::string("exception: ") + e); }
        catch (...) { fail(key, "unknown exception"); }
        return false;
    }
    // swallow what the library prints
    struct Quiet {
        std::ostringstream ss; std::streambuf *o, *e;
        Quiet() { o = std::cout.rdbuf(ss.rdbuf()); e = std::cerr.rdbuf(ss.rdbuf()); }
        ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
    };
    inline std::string hex(uint64_t x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
}
void mc_main();   // each harness defines this
#endif
