// C08: the recursion search over every candidate stream up to a length, with every split of the trial budget.
#include "mc.hpp"
#include "cand.hpp"
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

struct Ref { string poly; bool good; };
template<class U> static vector<Ref> refs(const gen::Family<U>& f) {
    vector<Ref> r;
    const int w = int(sizeof(U) * 8);
    for (auto& s : f.c) {
        orc::Bits b = orc::minpoly_seq(gen::outbits(s, f.seedstate, w - 1, 2 * f.size + 4));
        uint64_t m = orc::to_u64(b);
        Ref x;
        x.poly = orc::str(b);
        x.good = orc::deg64(m) == f.size && (m & 1) && orc::order_x(m) == (uint64_t(1) << f.size) - 1;
        r.push_back(x);
    }
    return r;
}
template<class U> static void run(const gen::Family<U>& f, const vector<Ref>& ref, const AlgorithmPrimitivity *ap, const vector<int>& st, const vector<int>& budgets, bool wide) {
    mc::guarded("search", [&] {
        mc::Quiet q;
        gen::Stream bg; bg.v = st;
        gen::Cand<U> g(f); g.drawn64 = wide;
        AlgorithmRecursionSearch<U> def(g, bg);
        AlgorithmRecursionSearch<U> *s = ap ? new AlgorithmRecursionSearch<U>(g, bg, *ap) : &def;
        struct D { AlgorithmRecursionSearch<U> *p, *d; ~D() { if (p != d) delete p; } } guard = { s, &def };
        size_t pos = 0;
        for (size_t i = 0; i < budgets.size(); i++) {
            bool want = false;
            size_t e = pos;
            for (int t = 0; t < budgets[i]; t++) { e++; mc::trans(); if (ref[st[e - 1]].good) { want = true; break; } }
            bool got = s->start(budgets[i]);
            mc::state();
            string at = "call " + to_string(i + 1) + " with budget " + to_string(budgets[i]);
            if (got != want) { mc::fail("result", at + ": expected " + (want ? "success" : "failure") + ", got the opposite"); return; }
            if (bg.over || bg.pos != e) { mc::fail("drawn", at + ": " + to_string(bg.pos + bg.over) + " candidates drawn, expected " + to_string(e)); return; }
            if (s->getCount() != long(e)) { mc::fail("count", at + ": count " + to_string(s->getCount()) + " expected " + to_string(e)); return; }
            if (got) {
                mc::nontrivial();
                if (orc::str(s->getMinPoly()) != ref[st[e - 1]].poly) { mc::fail("poly", at + ": polynomial " + orc::str(s->getMinPoly()) + " expected " + ref[st[e - 1]].poly); return; }
                if (g.k != st[e - 1] || s->getParamString() != "k=" + to_string(st[e - 1])) { mc::fail("params", at + ": the generator does not hold the accepted parameters"); return; }
                mc::outcome("accepted", to_string(e) + ":" + to_string(st[e - 1]));
            }
            pos = e;
        }
        mc::trace();
        if (mc::want_sample() && pos > 2) mc::sample(mc::describe() + " " + to_string(pos) + " candidates consumed");
    });
}
template<class U> static void family(const char *name, const gen::Family<U>& f, const AlgorithmPrimitivity *ap, int L) {
    vector<Ref> ref = refs(f);
    int K = int(f.c.size());
    int ng = 0; for (auto& r : ref) ng += r.good;
    mc::count("good_candidates", ng); mc::count("candidates", K);
    uint64_t total = 1;
    for (int i = 0; i < L; i++) total *= K;
    for (uint64_t c = 0; c < total; c++) {
        if (!mc::begin(name, f.size, L, c, sizeof(U))) continue;
        vector<int> st;
        uint64_t z = c;
        for (int i = 0; i < L; i++) { st.push_back(int(z % K)); z /= K; }
        // every split of the budget L into calls of 1.. with optional zero-budget call and early success not consuming it
        for (uint32_t cut = 0; cut < (1u << (L - 1)); cut++) {
            vector<int> b;
            int len = 1;
            for (int i = 0; i < L - 1; i++) { if (cut >> i & 1) { b.push_back(len); len = 1; } else len++; }
            b.push_back(len);
            if (cut & 1) b.insert(b.begin() + 1, 0);
            run<U>(f, ref, ap, st, b, c & 1);
        }
    }
}
// candidates of size n: kinds drawn from the modules of that size
template<class U> static gen::Family<U> make(int n, const vector<uint64_t>& mods, bool before) {
    gen::Family<U> f;
    f.size = n;
    for (size_t i = 0; i < mods.size(); i++) {
        int d = orc::deg64(mods[i]);
        vector<uint64_t> fn(3, 1); fn[1] = 2; fn[2] = 3;
        gen::Spec<U> s = gen::machine<U>(mods[i], fn, before ^ (i & 1), true);
        s.declared = n;
        if (d > n) s.n = d;
        f.c.push_back(s);
    }
    // a machine whose lowest bit does not move, with the primitive one elsewhere
    gen::Spec<U> z = gen::machine<U>(mods[0], vector<uint64_t>{ 0, 1, 2 }, before, true);
    f.c.push_back(z);
    return f;
}
// every candidate polynomial of the degree: one trial each
template<class U> static void singles(int n, const AlgorithmPrimitivity *ap, const char *name) {
    for (uint64_t m = uint64_t(1) << n; m < (uint64_t(2) << n); m++) {
        if (!mc::begin(name, n, m)) continue;
        gen::Family<U> f;
        f.size = n;
        f.c.push_back(gen::machine<U>(m, vector<uint64_t>{ 1, 3 }, m & 2, true));
        f.c.push_back(gen::machine<U>(m, vector<uint64_t>{ 5, 3 }, m & 4, true));
        vector<Ref> ref = refs(f);
        run<U>(f, ref, ap, vector<int>{ 0, 1, 0 }, vector<int>{ 1, 2 }, false);
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    static const char *f4[] = { "3", "5", 0 }, *f6[] = { "3", "7", 0 }, *f8[] = { "3", "5", "17", 0 }, *f9[] = { "7", "73", 0 }, *f10[] = { "3", "11", "31", 0 }, *f11[] = { "23", "89", 0 }, *f12[] = { "3", "5", "7", "13", 0 };
    AlgorithmPrimitivity p4(f4), p6(f6), p8(f8), p9(f9), p10(f10), p11(f11), p12(f12);
    int L = T ? 6 : 5;
    // Mersenne sizes: primitive, primitive, reducible of full degree, smaller primitive, singular, constant
    family<uint32_t>("mersenne", make<uint32_t>(5, { 0x25, 0x3b, 0x33, 0x13, 0x2a }, false), 0, L);
    family<uint64_t>("mersenne", make<uint64_t>(7, { 0x83, 0x81, 0x89, 0xc3, 0x80 }, true), 0, L - 1);
    family<uint16_t>("mersenne", make<uint16_t>(3, { 0xb, 0xf, 0xd, 0x7, 0xc }, true), 0, L - 1);
    family<uint32_t>("mersenne-object", make<uint32_t>(5, { 0x2f, 0x21, 0x3d, 0x1f, 0x35 }, true), &MersennePrimitivity, L - 1);
    // composite sizes: primitive, irreducible but not primitive, reducible, smaller, singular
    family<uint32_t>("factors", make<uint32_t>(4, { 0x13, 0x1f, 0x15, 0xb, 0x16 }, false), &p4, L);
    family<uint64_t>("factors", make<uint64_t>(6, { 0x43, 0x57, 0x49, 0x45, 0x25 }, true), &p6, L - 1);
    family<uint16_t>("factors", make<uint16_t>(8, { 0x11d, 0x11b, 0x139, 0x101, 0x83 }, true), &p8, L - 1);
    singles<uint32_t>(7, 0, "single"); singles<uint64_t>(5, 0, "single"); singles<uint16_t>(13, 0, "single");
    singles<uint32_t>(4, &p4, "single-factors"); singles<uint64_t>(6, &p6, "single-factors"); singles<uint32_t>(8, &p8, "single-factors");
    singles<uint16_t>(9, &p9, "single-factors"); singles<uint32_t>(10, &p10, "single-factors"); singles<uint32_t>(11, &p11, "single-factors");
    singles<uint32_t>(12, &p12, "single-factors");
}
