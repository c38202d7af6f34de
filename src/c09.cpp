// C09: the reducible recursion search over every candidate stream up to a length, with every split of the budget.
#include "mc.hpp"
#include "cand.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

static uint64_t irreducible_factor(uint64_t m, int d) {       // the irreducible factor of degree d (2d > deg m), or 0
    for (uint64_t f = uint64_t(1) << d; f < (uint64_t(2) << d); f++) {
        if (orc::mod64(m, f)) continue;
        bool ok = true;
        for (uint64_t e = 2; orc::deg64(e) * 2 <= d; e++) if (orc::mod64(f, e) == 0) { ok = false; break; }
        if (ok) return f;
    }
    return 0;
}
struct Ref { string poly, factor; bool good; };
template<class U> static vector<Ref> refs(const gen::Family<U>& f) {
    vector<Ref> r;
    const int w = int(sizeof(U) * 8);
    for (auto& s : f.c) {
        uint64_t m = orc::to_u64(orc::minpoly_seq(gen::outbits(s, f.seedstate, w - 1, 2 * f.size + 4)));
        uint64_t q = irreducible_factor(m, f.mexp);
        Ref x = { orc::str64(m), orc::str64(q), q != 0 };
        r.push_back(x);
    }
    return r;
}
template<class U> static void run(const gen::Family<U>& f, const vector<Ref>& ref, const vector<int>& st, const vector<int>& budgets, bool wide) {
    mc::guarded("search", [&] {
        mc::Quiet q;
        gen::Stream bg; bg.v = st;
        gen::Cand<U> g(f); g.drawn64 = wide;
        AlgorithmReducibleRecursionSearch<U> s(g, bg);
        size_t pos = 0;
        for (size_t i = 0; i < budgets.size(); i++) {
            bool want = false;
            size_t e = pos;
            for (int t = 0; t < budgets[i]; t++) { e++; mc::trans(); if (ref[st[e - 1]].good) { want = true; break; } }
            bool got = s.start(budgets[i]);
            mc::state();
            string at = "call " + to_string(i + 1) + " with budget " + to_string(budgets[i]);
            if (got != want) { mc::fail("result", at + ": expected " + (want ? "success" : "failure") + ", got the opposite, after candidate " + to_string(e)); return; }
            if (bg.over || bg.pos != e) { mc::fail("drawn", at + ": " + to_string(bg.pos + bg.over) + " candidates drawn, expected " + to_string(e)); return; }
            if (s.getCount() != long(e)) { mc::fail("count", at + ": count " + to_string(s.getCount()) + " expected " + to_string(e)); return; }
            if (got) {
                mc::nontrivial();
                const Ref& r = ref[st[e - 1]];
                if (orc::str(s.getCharacteristicPolynomial()) != r.poly) { mc::fail("poly", at + ": polynomial " + orc::str(s.getCharacteristicPolynomial()) + " expected " + r.poly); return; }
                if (orc::str(s.getIrreducibleFactor()) != r.factor) { mc::fail("factor", at + ": factor " + orc::str(s.getIrreducibleFactor()) + " expected " + r.factor); return; }
                if (g.k != st[e - 1] || s.getParamString() != "k=" + to_string(st[e - 1])) { mc::fail("params", at + ": the generator does not hold the accepted parameters"); return; }
                mc::outcome("accepted", to_string(e) + ":" + to_string(st[e - 1]));
                if (mc::want_sample() && e > 2) mc::sample(mc::describe() + ": factor " + r.factor + " of " + r.poly);
            }
            pos = e;
        }
        mc::trace();
    });
}
template<class U> static gen::Family<U> make(int n, int mexp, const vector<uint64_t>& mods, const vector<uint64_t>& obs, bool before) {
    gen::Family<U> f;
    f.size = n; f.mexp = mexp;
    for (size_t i = 0; i < mods.size(); i++) {
        gen::Spec<U> s = gen::machine<U>(mods[i], vector<uint64_t>{ obs[i], 1 }, before ^ (i & 1), true);
        s.declared = n;
        f.c.push_back(s);
    }
    return f;
}
template<class U> static void family(const gen::Family<U>& f, int L) {
    vector<Ref> ref = refs(f);
    int K = int(f.c.size());
    for (auto& r : ref) mc::count(r.good ? "good_candidates" : "bad_candidates");
    uint64_t total = 1;
    for (int i = 0; i < L; i++) total *= K;
    for (uint64_t c = 0; c < total; c++) {
        if (!mc::begin("stream", f.size, f.mexp, L, c, sizeof(U))) continue;
        vector<int> st;
        uint64_t z = c;
        for (int i = 0; i < L; i++) { st.push_back(int(z % K)); z /= K; }
        for (uint32_t cut = 0; cut < (1u << (L - 1)); cut++) {
            vector<int> b;
            int len = 1;
            for (int i = 0; i < L - 1; i++) { if (cut >> i & 1) { b.push_back(len); len = 1; } else len++; }
            b.push_back(len);
            if (cut & 1) b.insert(b.begin() + 1, 0);
            run<U>(f, ref, st, b, c & 1);
        }
    }
}
template<class U> static void singles(int n) {
    for (uint64_t m = uint64_t(1) << n; m < (uint64_t(2) << n); m++)
        for (int mexp = n / 2 + 1; mexp <= n; mexp++) {
            if (!mc::begin("single", n, m, mexp, sizeof(U))) continue;
            gen::Family<U> f = make<U>(n, mexp, { m, m, m }, { 1, 3, 6 }, m & 4);
            run<U>(f, refs(f), vector<int>{ 0, 1, 2, 1 }, vector<int>{ 1, 3 }, false);
        }
}
void mc_main() {
    bool T = mc::g.thorough;
    auto mul = [](uint64_t a, uint64_t b) { return orc::mul64(a, b); };
    int L = T ? 6 : 5;
    // mexp 5 of 8: f*q, f alone, f seen without q, no factor of degree 5, degree 6 irreducible times quadratic, f*t*(t+1)^2, singular
    family<uint32_t>(make<uint32_t>(8, 5, { mul(0x25, 0xb), 0x25, mul(0x3d, 0xf), mul(0x13, 0x1f), mul(0x43, 0x7), mul(0x37, 0xa) }, { 1, 1, 0xf, 1, 1, 1 }, false), L);
    family<uint64_t>(make<uint64_t>(10, 7, { mul(0x83, 0xd), mul(0x83, 0xd), mul(0x25, 0x25), 0x11b, mul(0x89, 0x9), 0x4 }, { 1, 0x83, 1, 1, 1, 1 }, true), L - 1);
    family<uint16_t>(make<uint16_t>(4, 3, { mul(0xb, 3), mul(7, 7), mul(0xd, 2), 0xd, 0x13 }, { 1, 1, 1, 1, 1 }, true), L);
    for (int n = 3; n <= (T ? 12 : 10); n++) { singles<uint32_t>(n); if (n < 9) { singles<uint64_t>(n); singles<uint16_t>(n); } }
}
