// C03: detection and extraction of an irreducible factor of more than half the degree.
#include "mc.hpp"
#include "oracle.hpp"
#include <NTL/GF2XFactoring.h>
#include <MTToolBox/period.hpp>
using namespace MTToolBox;
using namespace NTL;
using std::to_string;

static void small(int N) {
    std::vector<uint32_t> lf = orc::sieve(N + 1);
    for (uint64_t m = 0; m < (uint64_t(1) << (N + 1)); m++) {
        if (!mc::begin("poly", m)) continue;
        int d = orc::deg64(m);
        // the irreducible factors, with multiplicity
        uint64_t r = m; int big = 0; uint64_t bigf = 0;
        for (; r > 1; ) { uint64_t p = lf[r]; if (orc::deg64(p) * 2 > d) { big = orc::deg64(p); bigf = p; } r = orc::div64(r, p); }
        int lo = d < 2 ? 1 : d / 2 + 1;
        for (int e = lo; e <= d + 2; e++) {
            bool want = e == big && e >= 1;
            GF2X f = orc::to_ntl(m);
            mc::state(); mc::trans();
            if (want) mc::nontrivial();
            mc::outcome("verdict", want ? (e == d ? "itself" : "proper factor") : "none");
            mc::guarded("factor", [&] {
                bool g = hasFactorOfDegree(f, e);
                if (g != want) mc::fail("verdict", orc::str64(m) + ": factor of degree " + to_string(e) + (want ? " exists, not reported" : " does not exist, reported"));
                else if (g && orc::ntl_u64(f) != bigf) mc::fail("factor", orc::str64(m) + ": factor of degree " + to_string(e) + " is " + orc::str64(bigf) + ", left " + orc::str(f));
                else if (g && mc::want_sample() && e < d) mc::sample(orc::str64(m) + " degree " + to_string(e) + " -> " + orc::str(f));
            });
            mc::trace();
        }
    }
}
static GF2X tri(int d, int k) { GF2X f; SetCoeff(f, d, 1); SetCoeff(f, k, 1); SetCoeff(f, 0, 1); return f; }
// a large irreducible trinomial times every small cofactor (repeated factors, powers of x and all)
static void products(int d, int k, int C) {
    GF2X f = tri(d, k);
    for (uint64_t c = 1; c < (uint64_t(1) << (C + 1)); c++) {
        if (!mc::begin("product", d, k, c)) continue;
        GF2X p = f * orc::to_ntl(c), q = p;
        int dc = orc::deg64(c);
        mc::state(); mc::nontrivial();
        mc::guarded("factor", [&] {
            mc::trans();
            if (!hasFactorOfDegree(q, d) || q != f) mc::fail("product", "x^" + to_string(d) + "+x^" + to_string(k) + "+1 times " + orc::str64(c) + ": factor not found or wrong");
            for (int e = d - 1; e <= d + dc + 1; e++) {
                if (e == d || e * 2 <= d + dc) continue;
                GF2X w = p;
                mc::trans();
                if (hasFactorOfDegree(w, e)) mc::fail("product", "x^" + to_string(d) + "+x^" + to_string(k) + "+1 times " + orc::str64(c) + ": reported a factor of degree " + to_string(e));
            }
        });
        mc::trace();
    }
}
// an irreducible times another irreducible of comparable size, and reducible high-degree decoys
static void decoys(int d, int k, int d2, int k2) {
    if (!mc::begin("decoy", d, k, d2, k2)) return;
    GF2X f = tri(d, k), g = tri(d2, k2);
    mc::state(); mc::nontrivial();
    bool girr = IterIrredTest(g) != 0;
    mc::guarded("factor", [&] {
        GF2X p = f * g, w = p;
        mc::trans();
        if (d > d2) { if (!hasFactorOfDegree(w, d) || w != f) mc::fail("decoy", "factor of a product of two trinomials missed"); }
        // a reducible trinomial of degree d2 > d must not pass for an irreducible factor
        if (d2 > d) {
            w = p; mc::trans();
            bool r = hasFactorOfDegree(w, d2);
            if (r != girr || (r && w != g)) mc::fail("decoy", "wrong verdict on a product of two trinomials");
        }
        w = g; mc::trans();
        if (hasFactorOfDegree(w, d2) != girr || (girr && w != g)) mc::fail("decoy", "wrong verdict on a trinomial itself");
    });
    mc::trace();
}
void mc_main() {
    small(mc::g.thorough ? 17 : 14);
    int C = mc::g.thorough ? 9 : 6;
    int irr[][2] = { {17, 3}, {31, 3}, {33, 10}, {49, 9}, {63, 1}, {65, 18}, {89, 38}, {127, 1}, {127, 63} };
    for (auto& t : irr) products(t[0], t[1], C);
    products(521, 32, mc::g.thorough ? 5 : 3);
    if (mc::g.thorough) products(607, 105, 4);
    for (auto& t : irr) for (int d2 = 2; d2 <= (mc::g.thorough ? 130 : 70); d2++)
        for (int k2 = 1; k2 <= d2 / 2; k2 += (mc::g.thorough ? 1 : 3)) if (t[0] != d2) decoys(t[0], t[1], d2, k2);
}
