// C21 for the generator classes of the samples: two objects, every pair of configurations,
// all lists of operations on each and all interleavings of the two lists.  What a list gives
// alone, in a process in which no other object was ever made, is the oracle.
#if defined(GEN_X128)
#include "xorshift128.h"
#include "mc.hpp"
#include <memory>
#else
#include "samples.hpp"
#include <MTToolBox/TemperingCalculatable.hpp>
#endif
#include "apart.hpp"
using std::string; using std::vector; using std::to_string;
#if defined(GEN_X128)
enum { NOPS = 6 };
static int nconf(bool) { return 3; }
struct Obj {
    xorshift128_t g;
    Obj(int c) { xorshift128_init(&g, uint32_t(77 * c + 1)); }
    string op(int k) {
        switch (k) {
        case 0: return to_string(xorshift128_generate(&g));
        case 1: xorshift128_init(&g, 5); return "";
        case 2: { uint32_t a[3] = { 1, 2, 3 }; xorshift128_init_by_array(&g, a, 3); return ""; }
        case 3: { xorshift128_t c = g; return to_string(xorshift128_generate(&c)); }
        case 4: { uint32_t a[9] = { 9, 8, 7, 6, 5, 4, 3, 2, 1 }; xorshift128_init_by_array(&g, a, 9); return to_string(g.x ^ g.w); }
        default: return to_string(g.x) + "," + to_string(g.y) + "," + to_string(g.z) + "," + to_string(g.w);
        }
    }
};
#else
using namespace MTToolBox;
using smp::G; using smp::U;
static vector<smp::Conf> chosen;
static int nconf(bool thorough) {
    if (chosen.empty()) {
        vector<smp::Conf> all; size_t want = thorough ? 8 : 5;
        for (auto& c : smp::confs(false)) {
#if defined(GEN_MTGP)
            if (c.p[0] < 521) continue;       // parameters can be drawn from 521 on
#endif
            all.push_back(c);
        }
        for (size_t i = 0; i < all.size() && i < want; i++) chosen.push_back(all[all.size() <= want ? i : i * (all.size() - 1) / (want - 1)]);
    }
    return int(chosen.size());
}
#if defined(GEN_DSFMT)
enum { FULL = 2 };
#else
enum { FULL = 4 };
#endif
enum { NOPS = 13 };
template<class T> static auto temper(T& g, int n, int) -> decltype(g.setUpTempering(), string()) { for (int i = 0; i < 4; i++) g.setTemperingPattern(U(~U(0)), U(0x1234567u * (n + 2 * i + 3)), i); g.setUpTempering(); return ""; }
template<class T> static string temper(T& g, int, long) { smp::Row r; for (int i = 0; i < 3; i++) smp::putw(r, g.generate()); return smp::join(r); }
template<class T> static auto parity(T& g, int n, int) -> decltype(g.setOneBit(0), string()) { smp::Row r; smp::putw(r, g.getParityValue()); g.setParityValue(g.getParityValue()); g.generate(); smp::putw(r, g.getParityValue()); g.setOneBit(5 + 3 * n); g.generate(); smp::putw(r, g.getParityValue()); return smp::join(r); }
template<class T> static string parity(T& g, int, long) { return to_string(g.bitSize()); }
template<class T> static auto modes(T& g, int n, int) -> decltype(g.setStartMode(0), string()) { g.setStartMode(1 & n); g.setWeightMode(1); smp::Row r; for (int i = 0; i < 3; i++) smp::putw(r, g.generate()); g.setStartMode(0); g.setWeightMode(FULL); smp::putw(r, g.generate()); return smp::join(r); }
template<class T> static string modes(T& g, int, long) { smp::Row r; smp::putw(r, g.generate(smp::W)); return smp::join(r); }
struct Obj {
    std::unique_ptr<G> g; int n;
    Obj(int c) : g(smp::make(chosen[c])), n(c) { smp::seedk(*g, uint64_t(c) + 1); }
    string op(int k) {
        smp::Row r;
        switch (k) {
        case 0: smp::putw(r, g->generate()); break;
        case 1: smp::putw(r, g->generate(smp::W / 2 + 3)); break;
        case 2: smp::seedk(*g, 5); break;
        case 3: { std::unique_ptr<G> c(smp::cl(*g)); smp::putw(r, c->generate()); smp::putw(r, c->generate()); break; }
        case 4: { std::unique_ptr<G> c(smp::cl(*g)); c->generate(); g->add(*static_cast<smp::EC *>(c.get())); smp::putw(r, g->generate()); break; }
        case 5: { vector<uint64_t> v; for (int i = 0; i < 16; i++) v.push_back(smp::mixk(100 * n + i)); smp::ListPG<ParameterGenerator> pg(v); g->setUpParam(pg); return to_string(pg.i); }
        case 6: return g->getHeaderString() + "/" + g->getParamString();
        case 7: smp::rev(*g, true); smp::putw(r, g->generate(9)); smp::rev(*g, false); break;
        case 8: g->setZero(); return to_string(g->isZero());
        case 9: { std::unique_ptr<G> c(smp::cl(*g)); g = std::move(c); return to_string(g->isZero()) + to_string(g->bitSize()); }
        case 10: return temper(*g, n, 0);
        case 11: return parity(*g, n, 0);
        default: return modes(*g, n, 0);
        }
        return smp::join(r);
    }
};
#endif
static void explore(int len, int C) {
    long total = 1; for (int i = 0; i < len; i++) total *= NOPS;
    auto ops = [&](long c) { vector<int> r; for (int i = 0; i < len; i++) { r.push_back(int(c % NOPS)); c /= NOPS; } return r; };
    vector<vector<vector<string>>> alone(C, vector<vector<string>>(total));
    bool have = false;
    for (int c = 0; c < C; c++) for (int d = 0; d < C; d++) for (long a = 0; a < total; a++) {
        if (!mc::begin("objects", c, d, a)) continue;
        if (!have) {
            have = true;
            for (int w = 0; w < C; w++) for (long l = 0; l < total; l++) {
                string s = apart([&] { string t; Obj o(w); for (int k : ops(l)) t += o.op(k) + "\n"; return t; });
                std::istringstream is(s); string line; while (std::getline(is, line)) alone[w][l].push_back(line);
                mc::heartbeat = mc::heartbeat + 1;
                if (int(alone[w][l].size()) != len) { mc::fail("alone", "list " + to_string(l) + " on configuration " + to_string(w) + " alone: " + s.substr(0, 200)); alone[w][l].resize(len); }
            }
        }
        mc::nontrivial(); vector<int> la = ops(a);
        string r = apart([&] {
            uint64_t n = 0; string e;
            for (long b = 0; b < total && e.empty(); b++) {
                vector<int> lb = ops(b);
                for (int mask = 0; mask < (1 << (2 * len)) && e.empty(); mask++) {
                    if (__builtin_popcount(unsigned(mask)) != len) continue;
                    Obj x(c), y(d); int i = 0, j = 0; n++;
                    for (int s = 0; s < 2 * len && e.empty(); s++) {
                        bool first = mask >> s & 1; string t = first ? x.op(la[i]) : y.op(lb[j]); const string& w = first ? alone[c][a][i] : alone[d][b][j];
                        if (t != w) e = "operation " + to_string(first ? la[i] : lb[j]) + " as number " + to_string(first ? i : j) + " of list " + to_string(first ? a : b) + " on the " + (first ? "first" : "second") + " object gives " + t.substr(0, 90) + ", alone " + w.substr(0, 90) + " (order " + to_string(mask) + ", other list " + to_string(first ? b : a) + ")";
                        (first ? i : j)++;
                    }
                }
            }
            return to_string(n) + "|" + e; });
        size_t b = r.find('|');
        if (b == string::npos || r.compare(0, 4, "died") == 0 || r.compare(0, 9, "exception") == 0) { mc::fail("object", "the run " + r.substr(0, 200)); continue; }
        uint64_t n = strtoull(r.c_str(), 0, 10); mc::trans(n * 2 * len); mc::trace(n); mc::state(total);
        if (b + 1 < r.size()) mc::fail("object", r.substr(b + 1));
        if (mc::want_sample()) { string s; for (auto& t : alone[c][a]) s += t.substr(0, 40) + "; "; mc::sample("list " + to_string(a) + " alone: " + s); }
    }
}
void mc_main() {
    mc::Quiet q; int C = nconf(mc::g.thorough);
    explore(2, C);
    if (mc::g.thorough) explore(3, C < 2 ? C : 2);
}
