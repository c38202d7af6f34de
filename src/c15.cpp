// C15: the linearity self-test over all small machines and all fault positions.
#include "mc.hpp"
#include "gens.hpp"
#include <MTToolBox/TestLinearity.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

// next[x], out[x]: arbitrary tables; seeds give two chosen states; a copy may be imperfect; outputs may be faulty
template<class U> struct Tab {
    int n; uint8_t next[16]; U out[16];
    uint64_t s1, s2, cloneerr;
    int faultpos; uint32_t faultroles; U faultbit;   // at output faultpos (counted from seeding), for roles (see Obj::role)
    Tab() : n(0), s1(0), s2(0), cloneerr(0), faultpos(-1), faultroles(0), faultbit(0) {}
};
template<class U> class Obj : public EquidistributionCalculatable<U> {
public:
    const Tab<U>* t; uint64_t x; int pos; uint32_t role;   // role: 0 zero, 1 first seed, 2 second, 3 their sum
    Obj(const Tab<U>& tt, uint64_t x0) : t(&tt), x(x0), pos(0), role(0) {}
    U generate() {
        x = t->next[x];
        U r = t->out[x];
        if (pos++ == t->faultpos && (t->faultroles >> role & 1)) r = U(r ^ t->faultbit);
        return r;
    }
    U generate(int v) { return U(generate() & gen::topmask<U>(v)); }
    static uint64_t firstseed; static bool seeded;
    void seed(U v) { if (!seeded) { seeded = true; firstseed = uint64_t(v); } if (uint64_t(v) == firstseed) { x = t->s1; role = 1; } else { x = t->s2; role = 2; } pos = 0; }
    int bitSize() const { return t->n; }
    void setUpParam(ParameterGenerator&) {}
    const string getHeaderString() { return ""; }
    const string getParamString() { return ""; }
    Obj *clone() const { Obj *o = new Obj(*this); o->x ^= t->cloneerr; return o; }
    void add(EquidistributionCalculatable<U>& o) { Obj& p = dynamic_cast<Obj&>(o); x ^= p.x; role ^= p.role; }
    void setZero() { x = 0; role = 0; }
    bool isZero() const { return x == 0; }
};
template<class U> uint64_t Obj<U>::firstseed; template<class U> bool Obj<U>::seeded;
// does superposition or self-cancellation fail within the first hundred outputs?
template<class U> static bool broken(const Tab<U>& t) {
    uint64_t a = t.s1, b = t.s2;
    uint64_t z = t.cloneerr, c = (t.s2 ^ t.cloneerr) ^ t.s1;
    for (int i = 0; i < 100; i++) {
        a = t.next[a]; b = t.next[b]; z = t.next[z]; c = t.next[c];
        auto f = [&](int role) { return i == t.faultpos && (t.faultroles >> role & 1) ? t.faultbit : U(0); };
        if ((t.out[z] ^ f(0)) != 0) return true;
        if (U(t.out[a] ^ f(1) ^ t.out[b] ^ f(2)) != U(t.out[c] ^ f(3))) return true;
    }
    return false;
}
template<class U> static void check(const Tab<U>& t, bool linear) {
    bool br = broken(t);
    mc::state(); mc::trans(t.n);
    if (linear && br) { mc::fail("oracle", "a linear machine breaks superposition"); return; }
    Obj<U> g(t, 1 % (1 << t.n));
    TestLinearity<U> tl;
    bool got = false;
    Obj<U>::seeded = false;
    if (!mc::guarded("exception", [&] { mc::Quiet *q = 0; (void)q; got = tl(g); })) return;
    mc::trace();
    if (linear && !got) mc::fail("rejects-linear", "a linear generator was rejected");
    if (br && got) mc::fail("misses-violation", "a generator that breaks superposition within the first hundred outputs was accepted");
    if (g.x != uint64_t(1 % (1 << t.n)) || g.pos != 0) mc::fail("untouched", "the tested generator was changed");
    mc::outcome("verdict", got);
    mc::count(br ? "violating" : linear ? "linear" : "other");
}
template<class U> static void linear(int n, int m, int stride) {
    for (uint64_t c = 0; c < (uint64_t(1) << (n * n)); c += stride) {
        if (!mc::begin("linear", n, m, c, sizeof(U) * 8)) continue;
        mc::nontrivial();
        for (uint64_t o = 0; o < (uint64_t(1) << (n * m)); o++) {
            Tab<U> t; t.n = n;
            for (int x = 0; x < (1 << n); x++) {
                uint64_t y = 0, w = 0;
                for (int j = 0; j < n; j++) if (x >> j & 1) { y ^= c >> (j * n) & ((1u << n) - 1); w ^= o >> (j * m) & ((1u << m) - 1); }
                t.next[x] = uint8_t(y);
                U r = 0;                                            // spread the functionals over the word
                for (int b = 0; b < m; b++) if (w >> b & 1) r = U(r | U(1) << ((b * 11 + int(o % 7) * 9) % (sizeof(U) * 8)));
                t.out[x] = r;
            }
            for (t.s1 = 0; t.s1 < (1u << n); t.s1++) for (t.s2 = 0; t.s2 < (1u << n); t.s2++) check<U>(t, true);
        }
    }
}
template<class U> static void tables(int stride) {
    for (uint64_t c = 0; c < 256; c++) for (uint64_t o = 0; o < 256; o += stride) {
        if (!mc::begin("table", c, o, sizeof(U) * 8)) continue;
        mc::nontrivial();
        Tab<U> t; t.n = 2;
        for (int x = 0; x < 4; x++) {
            t.next[x] = c >> (2 * x) & 3;
            t.out[x] = U((o >> (2 * x) & 1 ? U(1) << (c % (sizeof(U) * 8)) : U(0)) | (o >> (2 * x + 1) & 1 ? U(1) << ((c + 13) % (sizeof(U) * 8)) : U(0)));
        }
        for (t.s1 = 0; t.s1 < 4; t.s1++) for (t.s2 = 0; t.s2 < 4; t.s2++) check<U>(t, false);
    }
}
template<class U> static void faults() {
    const int w = int(sizeof(U) * 8);
    // a linear machine, x -> primitive step
    for (int pos = 0; pos < 103; pos++) for (int b = 0; b < w; b++) {
        if (!mc::begin("fault", pos, b, w)) continue;
        mc::nontrivial();
        Tab<U> t; t.n = 4;
        for (int x = 0; x < 16; x++) { int y = x << 1; if (y & 16) y ^= 0x13; t.next[x] = uint8_t(y); t.out[x] = U((x & 1 ? U(1) : U(0)) | (x & 2 ? U(U(1) << (w - 1)) : U(0))); }
        t.s1 = 5; t.s2 = 9;
        t.faultpos = pos; t.faultbit = U(U(1) << b);
        for (t.faultroles = 0; t.faultroles < 16; t.faultroles++) check<U>(t, false);
    }
}
template<class U> static void copies() {
    for (int e = 1; e < 16; e++) for (int o = 1; o < 16; o++) {
        if (!mc::begin("copy", e, o, sizeof(U) * 8)) continue;
        mc::nontrivial();
        Tab<U> t; t.n = 4; t.cloneerr = e;
        for (int x = 0; x < 16; x++) { int y = x << 1; if (y & 16) y ^= 0x1f; t.next[x] = uint8_t(y); t.out[x] = U(__builtin_parity(x & o)) << (o % (sizeof(U) * 8)); }
        Tab<U> u = t;
        for (t.s1 = 0; t.s1 < 16; t.s1++) for (t.s2 = 0; t.s2 < 16; t.s2 += 3) {
            bool br = broken(t);
            Obj<U> g(t, 0);
            TestLinearity<U> tl;
            Obj<U>::seeded = false;
            bool got = tl(g);
            mc::trace(); mc::state();
            if (br && got) mc::fail("misses-copy", "an imperfect copy was accepted");
        }
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    linear<uint32_t>(1, 2, 1); linear<uint32_t>(2, 3, 1); linear<uint64_t>(2, 2, 1); linear<uint16_t>(2, 2, 1);
    linear<uint32_t>(3, 2, 1); linear<uint64_t>(3, 1, 1); linear<uint16_t>(3, 1, 1); if (T) linear<uint32_t>(3, 3, 1), linear<uint64_t>(4, 1, 3);
    tables<uint32_t>(1); tables<uint64_t>(T ? 1 : 3); tables<uint16_t>(T ? 1 : 5);
    faults<uint32_t>(); faults<uint64_t>(); faults<uint16_t>();
    copies<uint32_t>(); copies<uint64_t>();
    if (mc::g.samples.empty()) mc::sample("all linear machines of 3 state bits are accepted from every pair of seeds");
}
