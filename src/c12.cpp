// C12: the combined recursion-and-tempering search: what it reports against the generator it leaves.
#include "mc.hpp"
#include "temp.hpp"
#include "spy.hpp"
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

template<class U> static bool good(const gen::Design<U>& d, int k) {
    const int w = int(sizeof(U) * 8);
    vector<uint8_t> bits;
    vector<U> none(d.shifts.size(), 0);
    for (U o : d.stream(k, d.seedstate, none, false, 2 * d.size + 6)) bits.push_back(o & 1);
    (void)w;
    uint64_t m = orc::to_u64(orc::minpoly_seq(bits));
    return orc::deg64(m) == d.size && (m & 1) && orc::order_x(m) == (uint64_t(1) << d.size) - 1;
}
template<class U> static uint64_t truepoly(const gen::Design<U>& d, int k) {
    vector<uint8_t> bits;
    vector<U> none(d.shifts.size(), 0);
    for (U o : d.stream(k, d.seedstate, none, false, 2 * d.size + 6)) bits.push_back(o & 1);
    return orc::to_u64(orc::minpoly_seq(bits));
}
// the figures after a successful search; returns the tempering parameters left
template<class U> static bool figures(const gen::Design<U>& d, gen::Temp<U>& g, AlgorithmRecursionAndTempering<U>& a, const gen::Stream& bg, size_t from, const string& at) {
    size_t e = from;
    while (e < bg.v.size() && !good(d, bg.v[e])) e++;
    mc::trans(e - from + 1);
    if (e >= bg.v.size()) return true;
    if (bg.over || bg.pos != e + 1 || g.k != bg.v[e]) { mc::fail("stop", at + ": the search stopped after candidate " + to_string(bg.pos) + " holding " + to_string(g.k) + ", the first good one is number " + to_string(e + 1)); return false; }
    uint64_t p = truepoly(d, g.k);
    if (orc::str(a.getCharacteristicPolynomial()) != orc::str64(p)) { mc::fail("poly", at + ": polynomial " + orc::str(a.getCharacteristicPolynomial()) + ", the generator left has " + orc::str64(p)); return false; }
    if (a.getWeight() != __builtin_popcountll(p)) { mc::fail("weight", at + ": weight " + to_string(a.getWeight()) + " of " + orc::str64(p)); return false; }
    if (g.rev) { mc::fail("order", at + ": the generator is left in reversed bit order"); return false; }
    if (g.raw != g.act) { mc::fail("prepared", at + ": the tempering parameters left are not in force"); return false; }
    if (g.x == 0) { mc::fail("state", at + ": the generator is left in the zero state"); return false; }
    const int w = int(sizeof(U) * 8);
    int dl = d.delta(g.k, g.x, g.raw, false, w, d.size, d.size);
    if (a.getDelta() != dl) {
        string s; for (U r : g.raw) s += " " + mc::hex(r);
        mc::fail("delta", at + ": reported defect " + to_string(a.getDelta()) + ", the generator left (k=" + to_string(g.k) + ", parameters" + s + ") has " + to_string(dl));
        return false;
    }
    mc::state(); mc::trace(); mc::nontrivial();
    mc::outcome("delta", dl);
    return true;
}
template<class U> static gen::Design<U> design(const vector<uint64_t>& mods, int n, int sp, uint64_t fold, const vector<int>& sh) {
    gen::Design<U> d;
    for (uint64_t m : mods) {
        gen::Spec<U> s = gen::spread<U>(m, d.B, sp, fold | 1);
        s.declared = n; if (s.n < n) s.n = n;
        d.c.push_back(s);
    }
    d.size = d.mexp = n;
    d.shifts = sh;
    return d;
}
struct Mode { bool verbose, nolsb, single, lsbflag; };
static vector<Mode> modes() {
    vector<Mode> r;
    for (int i = 0; i < 8; i++) r.push_back({ bool(i & 1), bool(i & 2), false, bool(i & 4) });
    r.push_back({ false, true, true, false }); r.push_back({ true, true, true, true });
    return r;
}
// one run with spies
template<class U> static bool spied(const gen::Design<U>& d, const AlgorithmPrimitivity *ap, const vector<int>& st, const Mode& m, const vector<U>& p1, const vector<U>& m1, const vector<U>& p2, const vector<U>& m2, int times) {
    bool good = true;
    mc::guarded("exception", [&] {
        mc::Quiet q;
        gen::Stream bg; bg.v = st;
        gen::Temp<U> g(d);
        int clock = 0;
        gen::Spy<U> s1(p1, m1, false, &clock), s2(p2, m2, m.lsbflag, &clock);
        s1.stirs = s2.stirs = m.lsbflag;
        AlgorithmRecursionAndTempering<U> def(bg);
        AlgorithmRecursionAndTempering<U> own(bg, ap ? *ap : MersennePrimitivity);
        AlgorithmRecursionAndTempering<U>& a = ap ? own : def;
        std::ostringstream os;
        for (int t = 0; t < times && good; t++) {
            size_t from = bg.pos;
            bool r = m.single ? a.search(g, s1, m.verbose, os) : a.search(g, s1, s2, m.verbose, os, m.nolsb);
            string at = "search " + to_string(t + 1) + (m.verbose ? " verbose" : "") + (m.nolsb ? " without low bits" : "");
            if (!r) { mc::fail("result", at + ": reported failure"); good = false; return; }
            good = figures(d, g, a, bg, from, at);
            if (!good) return;
            if (s1.calls != t + 1 || s2.calls != (m.nolsb ? 0 : t + 1)) { mc::fail("stages", at + ": the tempering stages ran " + to_string(s1.calls) + " and " + to_string(s2.calls) + " times"); good = false; return; }
            if (s1.revseen || s2.revseen) { mc::fail("order-in", at + ": a tempering stage was given a generator in reversed order"); good = false; return; }
        }
    }) || (good = false);
    return good;
}
// every module of a degree as a candidate before a good one
template<class U> static void singles(int n, uint64_t prim, const AlgorithmPrimitivity *ap) {
    static const vector<Mode> M = modes();
    for (uint64_t m = uint64_t(1) << n; m < (uint64_t(2) << n); m++) for (int sp = 1; sp <= 2; sp++) for (int f = 0; f < 3; f++) {
        if (!mc::begin("single", sizeof(U) * 8, n, m, sp, f)) continue;
        static const uint64_t fold[] = { ~0ull, 0x5b5b6d6d5b5b6d6dull, 0x3333ff0f0ff01ff3ull };
        gen::Design<U> d = design<U>({ m, prim }, n, sp, fold[f], { 3, 1 + f });
        vector<U> p1{ U(0xa5c3f00f96d2b4e1ull >> f), U(0x123456789abcdef0ull) }, p2{ U(0xffff0000ff00f0ccull), U(0x0f0f33335555aaaaull) };
        vector<U> all(2, U(~U(0))), half{ U(0xff00ff00ff00ff00ull), U(0xf0f0f0f0f0f0f0f0ull) };
        for (auto& mo : M) if (!spied(d, ap, { 0, 1, 0, 1, 1 }, mo, p1, f == 1 ? half : all, p2, all, 2)) break;
        if (mc::want_sample()) mc::sample(mc::describe());
    }
}
// every pair of tempering outcomes on chosen bits
template<class U> static void outcomes(int n, uint64_t prim, const AlgorithmPrimitivity *ap, int bits) {
    static const vector<Mode> M = modes();
    const int w = int(sizeof(U) * 8);
    for (int sp = 1; sp <= 3; sp++) for (int sh = 1; sh < w; sh = sh * 2 + 1) for (int o = 0; o < (1 << bits); o++) {
        if (!mc::begin("outcome", w, n, sp, sh, o)) continue;
        gen::Design<U> d = design<U>({ prim }, n, sp, 0x5b5b6d6d5b5b6d6dull, { sh, sh + 2 < w ? sh + 2 : 1 });
        vector<U> p1, p2, ma, mb;
        for (int i = 0; i < 2; i++) {
            U a = 0, b = 0;
            for (int j = 0; j < bits; j++) { if (o >> j & 1) a = U(a | U(1) << (w - 1 - j * 2 - i)); if (o >> (bits - 1 - j) & 1) b = U(b | U(1) << (j * 3 + i + sh) % w); }
            p1.push_back(a); p2.push_back(b); ma.push_back(U(U(~U(0)) << (w / 2))); mb.push_back(U(~U(0)));
        }
        for (auto& mo : M) if (!spied(d, ap, { 0, 0 }, mo, p1, ma, p2, mb, 1)) break;
    }
}
// streams over an alphabet of candidates, searched until it is used up
template<class U> static void streams(const vector<uint64_t>& mods, int n, const AlgorithmPrimitivity *ap, int L) {
    static const vector<Mode> M = modes();
    int K = int(mods.size()); long total = 1;
    gen::Design<U> d = design<U>(mods, n, 1, 0x6d6d5b5b0ff01ff3ull, { 2, 5 });
    for (int i = 0; i < L; i++) total *= K;
    for (long c = 0; c < total; c++) {
        if (!mc::begin("stream", sizeof(U) * 8, n, L, c)) continue;
        vector<int> st; long z = c; int ng = 0;
        for (int i = 0; i < L; i++) { st.push_back(int(z % K)); ng += good(d, st.back()); z /= K; }
        if (!ng) { st.push_back(0); ng = 1; }
        vector<U> p1{ U(0xa5c3f00f96d2b4e1ull), U(0x123456789abcdef0ull) }, p2{ U(0xffff0000ff00f0ccull), U(0x0f0f33335555aaaaull) }, all(2, U(~U(0)));
        spied(d, ap, st, M[c % M.size()], p1, all, p2, all, ng);
    }
}
// a good candidate further on than one round of trials
template<class U> static void rounds(const vector<uint64_t>& mods, int n, const AlgorithmPrimitivity *ap) {
    static const vector<Mode> M = modes();
    for (int before : { 999, 1000, 1000 * n - 1, 1000 * n, 1000 * n + 1, 2000 * n }) for (size_t mo = 0; mo < M.size(); mo += 3) {
        if (!mc::begin("round", sizeof(U) * 8, n, before, mo)) continue;
        gen::Design<U> d = design<U>(mods, n, 1, ~0ull, { 2, 5 });
        vector<int> st;
        for (int i = 0; i < before; i++) st.push_back(1 + i % (int(mods.size()) - 1));
        st.push_back(0);
        vector<U> p(2, U(0x96d2b4e1a5c3f00full)), all(2, U(~U(0)));
        spied(d, ap, st, M[mo], p, all, p, all, 1);
    }
}
// the library's own tempering searchers, with every mode; verbosity must not change anything
template<class U, class S1, class S2> static void real(const char *name, const gen::Design<U>& d, S1 mk1, S2 mk2, const AlgorithmPrimitivity *ap) {
    for (int mo = 0; mo < 3; mo++) {
        vector<U> raw[2]; int delta[2] = { 0, 0 }, kk[2] = { 0, 0 };
        for (int verb = 0; verb < 2; verb++) {
            bool ok = true;
            mc::guarded("exception", [&] {
                mc::Quiet q;
                gen::Stream bg; bg.v = { 1, 0, 0 };
                gen::Temp<U> g(d);
                auto s1 = mk1(); auto s2 = mk2();
                AlgorithmRecursionAndTempering<U> def(bg);
                AlgorithmRecursionAndTempering<U> own(bg, ap ? *ap : MersennePrimitivity);
                AlgorithmRecursionAndTempering<U>& a = ap ? own : def;
                std::ostringstream os;
                bool r = mo == 2 ? a.search(g, s1, bool(verb), os) : a.search(g, s1, s2, bool(verb), os, mo == 1);
                if (!r) { mc::fail("result", "reported failure"); ok = false; return; }
                ok = figures(d, g, a, bg, 0, string(name) + (verb ? " verbose" : "") + (mo ? " without low bits" : ""));
                raw[verb] = g.raw; delta[verb] = a.getDelta(); kk[verb] = g.k;
            }) || (ok = false);
            if (!ok) return;
        }
        if (raw[0] != raw[1] || delta[0] != delta[1] || kk[0] != kk[1]) { mc::fail("verbose", string(name) + ": verbosity changes the result"); return; }
    }
    if (mc::want_sample()) mc::sample(mc::describe());
}
template<class U> static void reals(int n, uint64_t prim, const AlgorithmPrimitivity *ap, int from, int to) {
    const int w = int(sizeof(U) * 8);
    for (uint64_t m = uint64_t(1) << n | from; m < (uint64_t(1) << n | to); m += 1) for (int sp = 1; sp <= 2; sp++) for (int which = 0; which < 4; which++) {
        if (!mc::begin("real", w, n, m, sp, which)) continue;
        gen::Design<U> d = design<U>({ prim, m }, n, sp, sp == 1 ? 0x5b5b6d6d5b5b6d6dull : ~0ull, { 3, 5 });
        auto pm = [] { return AlgorithmPartialBitPattern<U, int(sizeof(U) * 8), 2, 6, 3, false>(); };
        auto pl = [] { return AlgorithmPartialBitPattern<U, int(sizeof(U) * 8), 2, 5, 2, true>(); };
        int sh[2] = { 3, 5 };
        auto bb = [&] { return AlgorithmBestBits<U>(int(sizeof(U) * 8), sh, 2, 3); };
        if (which == 0) real<U>("stepwise, stepwise low", d, pm, pl, ap);
        else if (which == 1) real<U>("levels, stepwise low", d, bb, pl, ap);
        else if (which == 2) real<U>("stepwise, levels", d, pm, bb, ap);
        else real<U>("stepwise low, stepwise", d, pl, pm, ap);
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    static const char *f4[] = { "3", "5", 0 }, *f6[] = { "3", "7", 0 }, *f8[] = { "3", "5", "17", 0 }, *f9[] = { "7", "73", 0 }, *f10[] = { "3", "11", "31", 0 };
    AlgorithmPrimitivity p4(f4), p6(f6), p8(f8), p9(f9), p10(f10);
    singles<uint32_t>(7, 0x83, 0); singles<uint16_t>(5, 0x25, 0); singles<uint64_t>(3, 0xb, 0); singles<uint32_t>(6, 0x43, &p6); singles<uint16_t>(8, 0x11d, &p8); singles<uint64_t>(4, 0x13, &p4);
    outcomes<uint32_t>(7, 0x83, 0, T ? 10 : 6); outcomes<uint16_t>(13, 0x201b, 0, T ? 8 : 6); outcomes<uint64_t>(8, 0x11d, &p8, T ? 8 : 4);
    streams<uint32_t>({ 0x25, 0x3b, 0x33, 0x13, 0x2a }, 5, 0, T ? 6 : 4); streams<uint16_t>({ 0x43, 0x57, 0x49, 0x45, 0x25 }, 6, &p6, T ? 6 : 4);
    rounds<uint32_t>({ 0xb, 0xf, 0x9 }, 3, 0); rounds<uint16_t>({ 0x13, 0x1f, 0x15 }, 4, &p4);
    reals<uint32_t>(7, 0x83, 0, 0, T ? 128 : 24); reals<uint16_t>(13, 0x201b, 0, 0, T ? 256 : 16); reals<uint64_t>(8, 0x11d, &p8, 0, T ? 64 : 6);
    if (T) { singles<uint32_t>(9, 0x211, &p9); singles<uint16_t>(10, 0x409, &p10); singles<uint64_t>(7, 0x83, 0); }
}
