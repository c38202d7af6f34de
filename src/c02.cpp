// C02: irreducibility and primitivity verdicts.
#include "mc.hpp"
#include "oracle.hpp"
#include <NTL/GF2XFactoring.h>
#include <NTL/ZZ.h>
#include <set>
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
using namespace MTToolBox;
using namespace NTL;
using std::string; using std::vector; using std::to_string;

static const int MEXP[] = { 2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423 };
static bool mexp(int d) { for (int m : MEXP) if (m == d) return true; return false; }

struct Factors {            // the prime factors of 2^d-1 in every form the interface takes
    Vec<ZZ> vec, rev, dup;
    vector<string> s, srev;
    vector<const char *> c, crev;
    AlgorithmPrimitivity *ap, *aprev;
    void fill(const vector<uint64_t>& f) {
        int n = int(f.size());
        vec.SetLength(n); rev.SetLength(n); dup.SetLength(2 * n);
        for (int i = 0; i < n; i++) {
            vec[i] = to_ZZ((unsigned long)f[i]); rev[n - 1 - i] = vec[i];
            dup[i] = vec[i]; dup[2 * n - 1 - i] = vec[i];
            s.push_back(to_string(f[i]));
        }
        for (int i = 0; i < n; i++) srev.push_back(s[n - 1 - i]);
        for (int i = 0; i < n; i++) { c.push_back(s[i].c_str()); crev.push_back(srev[i].c_str()); }
        c.push_back(0); crev.push_back(0);
        ap = new AlgorithmPrimitivity(&c[0]);
        aprev = new AlgorithmPrimitivity(&crev[0]);
    }
};
static vector<Factors> F;

static void small(int N) {
    std::vector<uint32_t> lf = orc::sieve(N + 1);
    for (uint64_t m = 0; m < (uint64_t(1) << (N + 1)); m++) {
        if (!mc::begin("poly", m)) continue;
        int d = orc::deg64(m);
        bool irr = d >= 1 && lf[m] == m;
        GF2X f = orc::to_ntl(m);
        mc::state();
        mc::trans(2);
        mc::guarded("irreducible", [&] {
            bool g = isIrreducible(f);
            if (g != irr) mc::fail("irreducible", orc::str64(m) + (irr ? " is irreducible, reported reducible" : " is reducible, reported irreducible"));
            // without factors: exact for Mersenne degrees
            if (mexp(d) || !irr) {
                bool p = isPrime(f);
                if (p != irr) mc::fail("prime", orc::str64(m) + " primitivity without factors wrong");
            }
        });
        if (d < 2) continue;
        bool prim = irr && (m & 1) && orc::order_x(m) == (uint64_t(1) << d) - 1;
        if (irr) mc::nontrivial();
        mc::outcome("class", irr ? prim ? "primitive" : "irreducible" : "reducible");
        if (prim && mc::want_sample()) mc::sample(orc::str64(m) + " primitive");
        mc::guarded("primefactors", [&] {
            Factors& q = F[d];
            struct { const char *n; bool v; } r[] = {
                { "vector", isPrime(f, d, q.vec) },
                { "reversed vector", isPrime(f, d, q.rev) },
                { "vector with repetitions", isPrime(f, d, q.dup) },
                { "strings", isPrime(f, d, &q.c[0]) },
                { "reversed strings", isPrime(f, d, &q.crev[0]) },
                { "object", (*q.ap)(d, f) },
                { "object, reversed", (*q.aprev)(d, f) },
            };
            for (auto& x : r) {
                mc::trans();
                if (x.v != prim) mc::fail(string("primitive"), orc::str64(m) + " with factors as " + x.n + (prim ? ": primitive but refused" : ": not primitive but accepted"));
            }
            for (int e = d - 1; e <= d + 1; e += 2) {      // another degree is always refused
                if (e < 2 || e > N) continue;
                mc::trans(3);
                if (isPrime(f, e, F[e].vec) || isPrime(f, e, &F[e].c[0]) || (*F[e].ap)(e, f) || isPrime(f, e, q.vec)
                    || (*q.ap)(e, f))
                    mc::fail("degree", orc::str64(m) + " accepted for degree " + to_string(e));
                if (MersennePrimitivity(e, f)) mc::fail("degree", orc::str64(m) + " accepted for degree " + to_string(e));
            }
            if (mexp(d)) {
                mc::trans();
                if (MersennePrimitivity(d, f) != prim) mc::fail("mersenne", orc::str64(m) + " Mersenne-mode verdict wrong");
                AlgorithmPrimitivity own;
                if (own(d, f) != prim) mc::fail("mersenne", orc::str64(m) + " Mersenne-mode object verdict wrong");
            }
        });
        mc::trace();
    }
}
// ---- polynomials of degree up to 127 in a 128-bit word
typedef unsigned __int128 u128;
static int deg128(u128 a) { uint64_t h = uint64_t(a >> 64), l = uint64_t(a); return h ? 127 - __builtin_clzll(h) : l ? 63 - __builtin_clzll(l) : -1; }
static u128 mod128(u128 a, u128 m) { int dm = deg128(m); for (int d = deg128(a); d >= dm; d = deg128(a)) a ^= m << (d - dm); return a; }
static u128 gcd128(u128 a, u128 b) { while (b) { u128 t = mod128(a, b); a = b; b = t; } return a; }
static u128 sqr(u128 a, u128 m) {
    int dm = deg128(m); u128 top = u128(1) << (dm - 1), r = 0;
    for (int i = dm - 1; i >= 0; i--) {
        bool c = (r & top) != 0; r <<= 1;
        if (c) r ^= m;
        if (a >> i & 1) r ^= a;
    }
    return r;
}
static bool irred128(u128 m) {
    int d = deg128(m);
    if (d < 1) return false;
    if (d == 1) return true;
    u128 x = mod128(2, m);
    for (int i = 1; i <= d / 2; i++) {
        x = sqr(x, m);
        if (deg128(gcd128(m, x ^ mod128(2, m))) > 0) return false;
    }
    return true;
}
static GF2X poly(std::initializer_list<int> e) { GF2X f; for (int i : e) SetCoeff(f, i, 1); return f; }
static void trinomials(int N) {
    for (int d = 2; d <= N; d++)
        for (int k = 1; k < d; k++) {
            if (!mc::begin("trinomial", d, k)) continue;
            u128 m = (u128(1) << d) | (u128(1) << k) | 1;
            bool irr = irred128(m);
            GF2X f = poly({ d, k, 0 });
            mc::state(); mc::trans(2); if (irr) mc::nontrivial();
            mc::guarded("trinomial", [&] {
                if (isIrreducible(f) != irr) mc::fail("irreducible", "x^" + to_string(d) + "+x^" + to_string(k) + "+1 verdict wrong");
                if ((mexp(d) || !irr) && isPrime(f) != irr) mc::fail("prime", "x^" + to_string(d) + "+x^" + to_string(k) + "+1 primitivity wrong");
                if (mexp(d) && MersennePrimitivity(d, f) != irr) mc::fail("mersenne", "x^" + to_string(d) + "+x^" + to_string(k) + "+1");
            });
            mc::trace();
        }
}
// all pentanomials of one degree
static void pentanomials(int d) {
    for (int a = 3; a < d; a++) for (int b = 2; b < a; b++) for (int c = 1; c < b; c++) {
        if (!mc::begin("pentanomial", d, a, b, c)) continue;
        u128 m = (u128(1) << d) | (u128(1) << a) | (u128(1) << b) | (u128(1) << c) | 1;
        bool irr = irred128(m);
        GF2X f = poly({ d, a, b, c, 0 });
        mc::state(); mc::trans(); if (irr) mc::nontrivial();
        mc::guarded("pentanomial", [&] {
            if (isIrreducible(f) != irr) mc::fail("irreducible", "pentanomial verdict wrong: " + orc::str(f));
            if (mexp(d) && isPrime(f) != irr) mc::fail("prime", "pentanomial primitivity wrong: " + orc::str(f));
        });
        mc::trace();
    }
}
// the primitive trinomials of large Mersenne degrees (Zierler 1969); all the others are reducible
static void large(int d, vector<int> ks) {
    for (int k = 1; k <= d / 2; k++) {
        bool irr = false;
        for (int q : ks) if (q == k) irr = true;
        if (!mc::begin("mersenne-trinomial", d, k)) continue;
        GF2X f = poly({ d, k, 0 }), g = poly({ d, d - k, 0 });
        mc::state(2); mc::trans(4); if (irr) mc::nontrivial();
        mc::guarded("large", [&] {
            if (isPrime(f) != irr || isPrime(g) != irr || MersennePrimitivity(d, f) != irr || MersennePrimitivity(d + 1, f))
                mc::fail("prime", "x^" + to_string(d) + "+x^" + to_string(k) + "+1 or its mirror judged wrongly");
        });
        mc::trace();
    }
}
// the Mersenne exponents, up to the largest the library knows
static void exponents() {
    static const int M[] = { 2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937,
                             21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593,
                             13466917, 20996011, 24036583, 25964951 };
    std::set<int> m(std::begin(M), std::end(M));
    int at = 0;
    for (int d = 0; d <= 26000000; d++) {
        bool w = at < int(sizeof M / sizeof *M) && M[at] == d;
        if (w) at++;
        if (d % 1000000 == 0 && !mc::begin("exponents", d / 1000000)) { d += 999999; while (at < int(sizeof M / sizeof *M) && M[at] <= d) at++; continue; }
        mc::state(); mc::trans();
        if (isMexp(uint32_t(d)) != w) mc::fail("mexp", to_string(d) + (w ? " not called" : " called") + " a Mersenne exponent");
        if (w) { mc::nontrivial(); mc::trace(); }
    }
}
// irreducible, of large degree, never primitive: x^(2*3^k)+x^(3^k)+1 has order 3^(k+1), x^(4*5^k)+...+x^(5^k)+1 has 5^(k+1)
static void cyclotomic() {
    for (int p : { 3, 5 })
        for (int q = 1; q * (p - 1) < 5000; q *= p) {
            if (!mc::begin("cyclotomic", p, q)) continue;
            int d = q * (p - 1);
            GF2X f;
            for (int i = 0; i < p; i++) f += poly({ i * q });
            bool mers = mexp(d);           // x^2+x+1 only
            mc::state(); mc::trans(3); mc::nontrivial();
            mc::guarded("cyclotomic", [&] {
                if (!isIrreducible(f)) mc::fail("irreducible", "the " + to_string(p * q) + "th cyclotomic polynomial called reducible");
                if (isPrime(f) != mers || MersennePrimitivity(d + 1, f) || MersennePrimitivity(d - 1, f)) mc::fail("prime", "the " + to_string(p * q) + "th cyclotomic polynomial judged wrongly");
            });
            mc::trace();
        }
}
// ---- the built-in factor lists: a primitive polynomial of each degree (found and verified outside this
// code base), and for every listed prime q the minimal polynomial of alpha^q, irreducible but of order (2^d-1)/q
struct Tab { int d; const char **t; std::initializer_list<int> e; };
#include "c02_prim.inc"
static void tables() {
    for (Tab& t : TABS) {
        GF2X f = poly(t.e);
        AlgorithmPrimitivity *ap = 0;
        Vec<ZZ> all;
        ZZ full = power(to_ZZ(2), t.d) - 1;
        int np = 0;
        for (; t.t[np]; np++) {}
        if (mc::begin("table", t.d)) {
            mc::state(); mc::trans(3); mc::nontrivial();
            mc::guarded("table", [&] {
                AlgorithmPrimitivity p(t.t);
                if (!p(t.d, f) || !isPrime(f, t.d, t.t)) mc::fail("table-primitive", "primitive polynomial of degree " + to_string(t.d) + " refused with its built-in list");
                GF2X sq = f * poly({ 1, 0 });
                if (p(t.d + 1, sq) || p(t.d, sq) || isPrime(sq, t.d + 1, t.t)) mc::fail("table-degree", "accepted a reducible polynomial");
                for (Tab& o : TABS) if (o.d != t.d && (isPrime(f, o.d, o.t) || p(o.d, f))) mc::fail("table-degree", "accepted for another degree");
            });
            mc::trace();
        }
        // the true primes of 2^d-1 come from the harness's own list, not from the code's
        for (const char **q = t.d == 0 ? 0 : TRUEP(t.d); *q; q++) {
            if (!mc::begin("table-prime", t.d, q - TRUEP(t.d))) continue;
            ZZ p = conv<ZZ>(*q);
            mc::text(string("prime ") + *q);
            GF2XModulus M; build(M, f);
            GF2X g, h;
            PowerXMod(g, p, M);
            MinPolyMod(h, g, M);
            mc::state(); mc::trans(2);
            if (deg(h) != t.d) { mc::count("subfield"); continue; }
            mc::nontrivial();
            mc::guarded("table", [&] {
                if (!isIrreducible(h)) mc::fail("irreducible", "irreducible polynomial of degree " + to_string(t.d) + " called reducible");
                if (isPrime(h, t.d, t.t)) mc::fail("table-accepts", "degree " + to_string(t.d) + ": accepted a polynomial of order (2^d-1)/" + *q);
                AlgorithmPrimitivity a(t.t);
                if (a(t.d, h)) mc::fail("table-accepts", "degree " + to_string(t.d) + ": object accepted a polynomial of order (2^d-1)/" + *q);
            });
            mc::trace();
        }
    }
}
void mc_main() {
    int N = mc::g.thorough ? 19 : 16;
    F.resize(N + 2);
    for (int d = 2; d <= N; d++) F[d].fill(orc::prime_factors((uint64_t(1) << d) - 1));
    small(N);
    trinomials(127);
    pentanomials(mc::g.thorough ? 61 : 31);
    if (mc::g.thorough) { pentanomials(32); pentanomials(64); pentanomials(31); }
    large(521, { 32, 48, 158, 168 });
    large(607, { 105, 147, 273 });
    large(1279, { 216, 418 });
    large(2281, { 715, 915, 1029 });
    large(3217, { 67, 576 });
    if (mc::g.thorough) large(4423, { 271, 369, 370, 649, 1393, 1419, 2098 });
    cyclotomic();
    exponents();
    tables();
}
