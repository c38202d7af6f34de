// C04: the built-in Mersenne exponents and factor lists.
#include "mc.hpp"
#include "oracle.hpp"
#include <NTL/ZZ.h>
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
using namespace MTToolBox;
using namespace NTL;
using std::to_string; using std::string;
struct Tab { int d; const char **t; std::initializer_list<int> e; };
#include "c02_prim.inc"

// every exponent of a Mersenne prime up to 57,885,161 (verified complete by GIMPS), and those known beyond
static const uint32_t KNOWN[] = { 2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423,
    9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433, 1257787, 1398269, 2976221,
    3021377, 6972593, 13466917, 20996011, 24036583, 25964951, 30402457, 32582657, 37156667, 42643801, 43112609, 57885161,
    74207281, 77232917, 82589933, 136279841 };
static const uint32_t COVERED = 25964951;     // the largest exponent the library lists

static bool lucas_lehmer(long p) {
    if (p == 2) return true;
    ZZ m = power(to_ZZ(2), p) - 1, s = to_ZZ(4);
    for (long i = 0; i < p - 2; i++) { s = SqrMod(s, m); s = s >= 2 ? s - 2 : s - 2 + m; }
    return IsZero(s);
}
static void mexp(uint64_t from, uint64_t to) {
    if (!mc::begin("exponents", from, to)) return;
    const uint32_t *k = std::lower_bound(KNOWN, KNOWN + sizeof KNOWN / 4, uint32_t(from));
    const uint32_t *end = KNOWN + sizeof KNOWN / 4;
    for (uint64_t n = from; n < to; n++) {
        bool is = k != end && *k == n;
        if (is) k++;
        bool got = isMexp(uint32_t(n));
        if (is) mc::nontrivial();
        if (got && !is) { mc::text(to_string(n)); mc::fail("mexp-" + to_string(n), to_string(n) + " is not the exponent of a Mersenne prime, reported as one"); }
        if (is && !got && n <= COVERED) { mc::text(to_string(n)); mc::fail("mexp-" + to_string(n), to_string(n) + " is the exponent of a Mersenne prime, not reported"); }
        if (got) mc::outcome("accepted", long(n));
    }
    mc::state(to - from); mc::trans(to - from); mc::trace(to - from);
}
void mc_main() {
    // the reference list itself, where it can be recomputed
    for (long p = 2; p <= (mc::g.thorough ? 4500 : 1300); p++) {
        if (!mc::begin("lucas-lehmer", p)) continue;
        bool isp = orc::prime_u64(p) && lucas_lehmer(p);
        bool listed = std::binary_search(KNOWN, KNOWN + sizeof KNOWN / 4, uint32_t(p));
        mc::state(); mc::trans(); mc::trace();
        if (isp != listed) mc::fail("oracle", "reference list wrong at " + to_string(p));
        if (isMexp(uint32_t(p)) != isp) mc::fail("mexp-" + to_string(p), "verdict for " + to_string(p) + " contradicts the Lucas-Lehmer test");
    }
    uint64_t top = mc::g.thorough ? uint64_t(1) << 32 : uint64_t(1) << 28, step = uint64_t(1) << 21;
    for (uint64_t a = 0; a < top; a += step) mexp(a, a + step);
    if (!mc::g.thorough) mexp((uint64_t(1) << 32) - step, uint64_t(1) << 32);
    for (Tab& t : TABS) {
        ZZ n = power(to_ZZ(2), t.d) - 1;
        std::vector<string> seen;
        for (int i = 0; ; i++) {
            const char *s = t.t[i];
            if (!mc::begin("entry", t.d, i)) { if (!s) break; seen.push_back(s); continue; }
            if (!s) {
                // the end of the list: it must have listed every prime factor
                mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
                ZZ r = n;
                for (auto& q : seen) { ZZ p = conv<ZZ>(q.c_str()); if (p > 1) while (divide(r, r, p)) {} }
                if (!IsOne(r)) mc::fail("incomplete-" + to_string(t.d), "the list for 2^" + to_string(t.d) + "-1 misses a prime factor");
                break;
            }
            mc::text(s);
            mc::state(); mc::trans(); mc::trace(); mc::nontrivial();
            bool digits = *s != 0;
            for (const char *c = s; *c; c++) digits = digits && *c >= '0' && *c <= '9';
            if (!digits) { mc::fail("entry", string("entry is not a number: ") + s); continue; }
            ZZ p = conv<ZZ>(s);
            if (p < 2 || !divide(n, p)) mc::fail("entry-" + to_string(t.d), string(s) + " does not divide 2^" + to_string(t.d) + "-1");
            else if (!ProbPrime(p, 40)) mc::fail("entry-" + to_string(t.d), string(s) + " is not prime");
            bool listed = false;
            for (const char **q = TRUEP(t.d); *q; q++) if (!strcmp(*q, s)) listed = true;
            if (!listed) mc::fail("entry-" + to_string(t.d), string(s) + " is not a prime factor of 2^" + to_string(t.d) + "-1");
            if (mc::want_sample()) mc::sample("2^" + to_string(t.d) + "-1 has the prime factor " + s);
            seen.push_back(s);
        }
    }
}
