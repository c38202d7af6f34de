// C24: the combined search on reducible generators: what it reports and leaves, against the machine.
#include "mc.hpp"
#include "temp.hpp"
#include "spy.hpp"
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

static vector<uint32_t> LF;        // least factors of polynomials below 2^21
// the irreducible factor of degree e of p, 0 if none
static uint64_t factor(uint64_t p, int e) {
    if (p <= 1) return 0;
    while (orc::deg64(p) > 0) {
        uint64_t f = LF[p];
        if (orc::deg64(f) == e) return f;
        p = orc::div64(p, f);
    }
    return 0;
}
struct Want { uint64_t mod; };     // of each candidate
template<class U> struct World { gen::Design<U> d; vector<uint64_t> mods; };
template<class U> static uint64_t accepted(const World<U>& w, int k) {
    const gen::Design<U>& d = w.d;
    vector<uint8_t> bits;
    vector<U> none(d.shifts.size(), 0);
    for (U o : d.stream(k, d.seedstate, none, false, 2 * d.size + 6)) bits.push_back(o & 1);
    return factor(orc::to_u64(orc::minpoly_seq(bits)), d.mexp);
}
template<class U, class A> static bool figures(const World<U>& wd, gen::Temp<U>& g, A& a, const gen::Stream& bg, size_t from, const string& at) {
    const gen::Design<U>& d = wd.d;
    size_t e = from;
    while (e < bg.v.size() && !accepted(wd, bg.v[e])) e++;
    mc::trans(e - from + 1);
    if (e >= bg.v.size()) return true;
    if (bg.over || bg.pos != e + 1 || g.k != bg.v[e]) { mc::fail("stop", at + ": the search stopped after candidate " + to_string(bg.pos) + " holding " + to_string(g.k) + ", the first good one is number " + to_string(e + 1)); return false; }
    uint64_t f = accepted(wd, g.k), m = wd.mods[g.k];
    if (orc::str(a.getIrreducibleFactor()) != orc::str64(f)) { mc::fail("factor", at + ": factor " + orc::str(a.getIrreducibleFactor()) + " expected " + orc::str64(f)); return false; }
    U par = a.getParity();
    if (par == 0) { mc::fail("parity-zero", at + ": the parity vector is zero"); return false; }
    if (g.parity != par) { mc::fail("parity-set", at + ": the parity vector reported is not the one in the generator"); return false; }
    for (int j = 0; j < orc::deg64(m) - d.mexp; j++) {
        uint64_t x = orc::mod64(orc::mul64(f, uint64_t(1) << j), m);
        mc::trans();
        if (__builtin_parityll(uint64_t(par & U(x)))) { mc::fail("parity", at + ": the parity vector " + mc::hex(par) + " accepts state " + mc::hex(x) + ", which has no component on the factor"); return false; }
    }
    if (g.rev) { mc::fail("order", at + ": the generator is left in reversed bit order"); return false; }
    if (g.raw != g.act) { mc::fail("prepared", at + ": the tempering parameters left are not in force"); return false; }
    if (g.x == 0) { mc::fail("state", at + ": the generator is left in the zero state"); return false; }
    uint64_t y = 0, x = g.x;
    for (int i = 0; i <= d.mexp; i++) { if (f >> i & 1) y ^= x; x = d.c[g.k].step(x); }
    if (y != 0) { mc::fail("component", at + ": the state left " + mc::hex(g.x) + " is not in the component of the factor " + orc::str64(f)); return false; }
    const int w = int(sizeof(U) * 8);
    int dl = d.delta(g.k, g.x, g.raw, false, w, d.mexp, d.size);
    if (a.getDelta() != dl) { mc::fail("delta", at + ": reported defect " + to_string(a.getDelta()) + ", the generator left (k=" + to_string(g.k) + ", " + g.getParamString() + ") has " + to_string(dl)); return false; }
    mc::state(); mc::trace(); mc::nontrivial();
    mc::outcome("delta", dl);
    return true;
}
template<class U> static World<U> world(const vector<uint64_t>& mods, int n, int mexp, int sp, uint64_t fold, const vector<int>& sh, uint64_t seedstate) {
    World<U> w;
    for (uint64_t m : mods) {
        gen::Spec<U> s = gen::spread<U>(m, w.d.B, sp, fold | 1);
        s.declared = n; if (s.n < n) s.n = n;
        w.d.c.push_back(s);
    }
    w.mods = mods;
    w.d.size = n; w.d.mexp = mexp; w.d.shifts = sh; w.d.seedstate = seedstate;
    return w;
}
struct Mode { bool verbose, nolsb, single, lsbflag; };
static vector<Mode> modes() {
    vector<Mode> r;
    for (int i = 0; i < 8; i++) r.push_back({ bool(i & 1), bool(i & 2), false, bool(i & 4) });
    r.push_back({ false, true, true, false }); r.push_back({ true, true, true, true });
    return r;
}
template<class U> static bool spied(const World<U>& w, const vector<int>& st, const Mode& m, const vector<U>& p1, const vector<U>& m1, const vector<U>& p2, const vector<U>& m2, int times) {
    bool good = true;
    mc::guarded("exception", [&] {
        mc::Quiet q;
        gen::Stream bg; bg.v = st;
        gen::Temp<U> g(w.d);
        int clock = 0;
        gen::Spy<U> s1(p1, m1, false, &clock), s2(p2, m2, m.lsbflag, &clock);
        s1.stirs = s2.stirs = m.lsbflag;
        AlgorithmReducibleRecursionAndTempering<U, gen::Temp<U> > a(bg);
        std::ostringstream os;
        for (int t = 0; t < times && good; t++) {
            size_t from = bg.pos;
            bool r = m.single ? a.search(g, s1, m.verbose, os) : a.search(g, s1, s2, m.verbose, os, m.nolsb);
            string at = "search " + to_string(t + 1) + (m.verbose ? " verbose" : "") + (m.nolsb ? " without low bits" : "");
            if (!r) { mc::fail("result", at + ": reported failure"); good = false; return; }
            good = figures(w, g, a, bg, from, at);
            if (!good) return;
            if (s1.calls != t + 1 || s2.calls != (m.nolsb ? 0 : t + 1)) { mc::fail("stages", at + ": the tempering stages ran " + to_string(s1.calls) + " and " + to_string(s2.calls) + " times"); good = false; return; }
            if (s1.revseen || s2.revseen) { mc::fail("order-in", at + ": a tempering stage was given a generator in reversed order"); good = false; return; }
        }
    }) || (good = false);
    return good;
}
template<class U> static vector<U> ones() { return vector<U>(2, U(~U(0))); }
// every coprime product of an irreducible f of the exponent and a cofactor that keeps the step invertible
template<class U> static void products(int e, int dq, int every) {
    static const vector<Mode> M = modes();
    int c = 0;
    for (uint64_t f = uint64_t(1) << e | 1; f < (uint64_t(2) << e); f += 2) {
        if (LF[f] != f) continue;
        for (uint64_t q = uint64_t(1) << dq | 1; q < (uint64_t(2) << dq); q += 2) for (int sp = 1; sp <= 2; sp++) for (int ss = 0; ss < 3; ss++) {
            if (c++ % every) continue;
            if (!mc::begin("product", sizeof(U) * 8, f, q, sp, ss)) continue;
            uint64_t m = orc::mul64(f, q);
            // seeded by 1, by a state whose orbit mixes both components, or inside the factor's component
            uint64_t seed = ss == 0 ? 1 : ss == 1 ? (uint64_t(1) << (e + dq - 1)) | 1 : q;
            World<U> w = world<U>({ m }, e + dq, e, sp, ss == 1 ? 0x5b5b6d6d5b5b6d6dull : ~0ull, { 3, 2 }, seed);
            if (!accepted(w, 0)) { mc::count("factor_not_excited"); continue; }
            vector<U> p1{ U(0xa5c3f00f96d2b4e1ull), U(0x123456789abcdef0ull) }, p2{ U(0xffff0000ff00f0ccull), U(0x0f0f33335555aaaaull) };
            for (auto& mo : M) if (!spied(w, { 0, 0 }, mo, p1, ones<U>(), p2, ones<U>(), 2)) break;
            if (mc::want_sample()) mc::sample(mc::describe());
        }
    }
}
// parts of the state which only some of the output bits show
template<class U> static void hidden(int e, int dq, int every) {
    static const vector<Mode> M = modes();
    const int B = int(sizeof(U) * 8);
    int c = 0;
    for (uint64_t f = uint64_t(1) << e | 1; f < (uint64_t(2) << e); f += 2) {
        if (LF[f] != f) continue;
        for (uint64_t q = uint64_t(1) << dq | 1; q < (uint64_t(2) << dq); q += 2) for (uint64_t h = 3; h <= q; h += 2) {
            if (orc::mod64(q, h)) continue;
            if (dq >= e && factor(q, e)) continue;                    // one factor of the exponent only
            for (int sch = 0; sch < 6; sch++) {
                if (c++ % every) continue;
                if (orc::gcd64(h, orc::div64(q, h)) != 1 && (sch == 3 || sch == 4)) continue;         // some bit has to show every part
                if (!mc::begin("hidden", B, f, q, h, sch)) continue;
                uint64_t m = orc::mul64(f, q);
                uint64_t seed = sch & 1 ? (uint64_t(1) << (e + dq - 1)) | 1 : 1;
                World<U> w = world<U>({ m }, e + dq, e, 1, ~0ull, { 3, 2 }, seed);
                vector<uint64_t> d; uint64_t p = 1; int shown0 = 0;
                for (int b = 0; b < B; b++) {
                    // h hidden in the lowest bit, in all but the highest, in one half while the other hides the rest, in every second
                    uint64_t r = orc::div64(q, h), hide = 1;
                    if (sch < 2) hide = b == 0 ? h : 1;
                    else if (sch == 2) hide = b < B - 1 ? h : 1;
                    else if (sch == 3) hide = b < B / 2 ? h : r;
                    else if (sch == 4) hide = b & 1 ? r : h;
                    else hide = b == B / 2 ? 1 : q;
                    if (b == 0) shown0 = dq - orc::deg64(hide);
                    d.push_back(orc::mod64(orc::mul64(hide, p), m));
                    p = orc::mod64(p << 1, m);
                }
                if (shown0 >= e) continue;                // the lowest bit shows too much for the factor to be recognized
                gen::Spec<U> s = gen::machine<U>(m, d, false, true);
                s.declared = e + dq; w.d.c[0] = s;
                if (!accepted(w, 0)) { mc::count("factor_not_excited"); continue; }
                vector<U> p1{ U(0xa5c3f00f96d2b4e1ull), U(0x123456789abcdef0ull) }, p2{ U(0xffff0000ff00f0ccull), U(0x0f0f33335555aaaaull) };
                for (auto& mo : M) if (!spied(w, { 0, 0 }, mo, p1, ones<U>(), p2, ones<U>(), 2)) break;
            }
        }
    }
}
// good candidates behind others of every kind
template<class U> static void streams(const vector<uint64_t>& mods, int n, int e, int L) {
    static const vector<Mode> M = modes();
    World<U> w = world<U>(mods, n, e, 1, 0x6d6d5b5b0ff01ff3ull, { 2, 5 }, 1);
    int K = int(mods.size()); long total = 1;
    for (int i = 0; i < L; i++) total *= K;
    for (long c = 0; c < total; c++) {
        if (!mc::begin("stream", sizeof(U) * 8, n, e, c)) continue;
        vector<int> st; long z = c; int ng = 0;
        for (int i = 0; i < L; i++) { st.push_back(int(z % K)); ng += accepted(w, st.back()) != 0; z /= K; }
        if (!ng) { st.push_back(0); ng = 1; }
        vector<U> p1{ U(0xa5c3f00f96d2b4e1ull), U(0x123456789abcdef0ull) }, p2{ U(0xffff0000ff00f0ccull), U(0x0f0f33335555aaaaull) };
        spied(w, st, M[c % M.size()], p1, ones<U>(), p2, ones<U>(), ng);
    }
}
template<class U> static void rounds(const vector<uint64_t>& mods, int n, int e) {
    for (int before : { 1000 * e - 1, 1000 * e, 1000 * n, 1000 * n + 1 }) for (int v = 0; v < 2; v++) {
        if (!mc::begin("round", n, e, before, v)) continue;
        World<U> w = world<U>(mods, n, e, 1, ~0ull, { 2, 5 }, 1);
        vector<int> st;
        for (int i = 0; i < before; i++) st.push_back(1 + i % (int(mods.size()) - 1));
        st.push_back(0);
        vector<U> p(2, U(0x96d2b4e1a5c3f00full));
        spied(w, st, { bool(v), false, false, true }, p, ones<U>(), p, ones<U>(), 1);
    }
}
template<class U, class S1, class S2> static void real(const char *name, const World<U>& w, S1 mk1, S2 mk2) {
    for (int mo = 0; mo < 3; mo++) {
        vector<U> raw[2]; int delta[2] = { 0, 0 }; U par[2] = { 0, 0 };
        for (int verb = 0; verb < 2; verb++) {
            bool ok = true;
            mc::guarded("exception", [&] {
                mc::Quiet q;
                gen::Stream bg; bg.v = { 0 };
                gen::Temp<U> g(w.d);
                auto s1 = mk1(); auto s2 = mk2();
                AlgorithmReducibleRecursionAndTempering<U, gen::Temp<U> > a(bg);
                std::ostringstream os;
                bool r = mo == 2 ? a.search(g, s1, bool(verb), os) : a.search(g, s1, s2, bool(verb), os, mo == 1);
                if (!r) { mc::fail("result", "reported failure"); ok = false; return; }
                ok = figures(w, g, a, bg, 0, string(name) + (verb ? " verbose" : "") + (mo ? " without low bits" : ""));
                raw[verb] = g.raw; delta[verb] = a.getDelta(); par[verb] = a.getParity();
            }) || (ok = false);
            if (!ok) return;
        }
        if (raw[0] != raw[1] || delta[0] != delta[1] || par[0] != par[1]) { mc::fail("verbose", string(name) + ": verbosity changes the result"); return; }
    }
}
template<class U> static void reals(int e, int dq, int every) {
    int c = 0;
    for (uint64_t f = uint64_t(1) << e | 1; f < (uint64_t(2) << e); f += 2) {
        if (LF[f] != f) continue;
        for (uint64_t q = uint64_t(1) << dq | 1; q < (uint64_t(2) << dq); q += 2) for (int which = 0; which < 4; which++) {
            if (c++ / 4 % every) continue;
            if (!mc::begin("real", sizeof(U) * 8, f, q, which)) continue;
            World<U> w = world<U>({ orc::mul64(f, q) }, e + dq, e, 1, 0x5b5b6d6d5b5b6d6dull, { 3, 5 }, 1);
            auto pm = [] { return AlgorithmPartialBitPattern<U, int(sizeof(U) * 8), 2, 6, 3, false>(); };
            auto pl = [] { return AlgorithmPartialBitPattern<U, int(sizeof(U) * 8), 2, 5, 2, true>(); };
            int sh[2] = { 3, 5 };
            auto bb = [&] { return AlgorithmBestBits<U>(int(sizeof(U) * 8), sh, 2, 3); };
            if (which == 0) real<U>("stepwise, stepwise low", w, pm, pl);
            else if (which == 1) real<U>("levels, stepwise low", w, bb, pl);
            else if (which == 2) real<U>("stepwise, levels", w, pm, bb);
            else real<U>("stepwise low, stepwise", w, pl, pm);
        }
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    LF = orc::sieve(21);
    for (int e = 2; e <= (T ? 8 : 7); e++) for (int dq = 1; dq < e && dq <= 5; dq++) {
        int every = T ? 1 : e < 6 ? 1 : e == 6 ? 3 : 11;
        products<uint32_t>(e, dq, every); products<uint16_t>(e, dq, every + 1); products<uint64_t>(e, dq, every * 2 + 1);
    }
    for (int e = 3; e <= (T ? 7 : 6); e++) for (int dq = 1; dq < e && dq <= 5; dq++) {
        int every = T ? 1 : e < 5 ? 1 : e == 5 ? 5 : 31;
        hidden<uint32_t>(e, dq, every); hidden<uint16_t>(e, dq, every); hidden<uint64_t>(e, dq, every * 2 + 1);
    }
    // the part beside the factor larger than the factor, most of it hidden from the lowest bit
    for (int e = 3; e <= 5; e++) for (int dq = e; dq <= e + 3; dq++) {
        int every = (T ? 1 : 7) * (e == 5 ? 5 : 1) * (dq > e + 1 ? 3 : 1);
        hidden<uint32_t>(e, dq, every); hidden<uint16_t>(e, dq, every * 2 + 1); hidden<uint64_t>(e, dq, every * 2 + 1);
    }
    products<uint16_t>(13, 5, T ? 97 : 4001); products<uint32_t>(13, 4, T ? 97 : 4001); products<uint32_t>(11, 9, T ? 307 : 10007);
    // f q, f' q', no factor of the size, wrong degrees, singular without the factor
    streams<uint32_t>({ orc::mul64(0x25, 0xb), orc::mul64(0x2f, 0x9), 0x11d, orc::mul64(0x43, 7), 0x25, orc::mul64(0x13, 0x1f) & ~1ull }, 8, 5, T ? 6 : 4);
    streams<uint16_t>({ orc::mul64(0x83, 0xd), orc::mul64(0xc1, 0xf), 0x409, orc::mul64(0x11d, 7), 0x83, orc::mul64(0x13, 0x57) & ~1ull }, 10, 7, T ? 6 : 4);
    rounds<uint32_t>({ orc::mul64(0xb, 7), 0x25, 0x35, 0x37 }, 5, 3);
    reals<uint32_t>(5, 3, T ? 1 : 5); reals<uint16_t>(7, 4, T ? 3 : 61); reals<uint64_t>(5, 2, T ? 2 : 7);
}
