// C20: the 128-bit word of the SIMD samples against 128-bit integers.
#include "mc.hpp"
#include <vector>
#include <NTL/GF2X.h>
#include <NTL/mat_GF2.h>
#include <MTToolBox/util.hpp>
#include "w128.hpp"
using namespace MTToolBox;
typedef unsigned __int128 Q;
using std::to_string; using std::string;

static w128_t W(Q q) { w128_t w; w.u64[0] = uint64_t(q); w.u64[1] = uint64_t(q >> 64); return w; }
static Q V(const w128_t& w) { return Q(w.u64[1]) << 64 | w.u64[0]; }
static string H(Q q) { char b[48]; snprintf(b, 48, "0x%016llx%016llx", (unsigned long long)(q >> 64), (unsigned long long)q); return b; }
static bool same(const char *key, const string& what, Q want, Q got) {
    if (want == got) return true;
    mc::fail(key, what + " = " + H(got) + ", expected " + H(want));
    return false;
}
static Q low(int n) { return n >= 128 ? ~Q(0) : (Q(1) << n) - 1; }
static bool one(Q x) {
    w128_t w = W(x);
    mc::state();
    for (int s = 0; s < 128; s++) {
        if (!same("shr", H(x) + " >> " + to_string(s), x >> s, V(w >> s))) return false;
        if (!same("shl", H(x) + " << " + to_string(s), x << s, V(w << s))) return false;
        if (getBitOfPos<w128_t>(w, s) != unsigned(x >> s & 1)) { mc::fail("getbit", "bit " + to_string(s) + " of " + H(x)); return false; }
        for (unsigned b = 0; b < 4; b++) {
            w128_t y = w; setBitOfPos(&y, s, b);
            if (!same("setbit", "setting bit " + to_string(s) + " of " + H(x) + " to " + to_string(b & 1), (b & 1) ? x | Q(1) << s : x & ~(Q(1) << s), V(y))) return false;
        }
    }
    mc::trans(128 * 7);
    if (!same("not", "~" + H(x), ~x, V(~w))) return false;
    if (isZero(w) != (x == 0)) { mc::fail("iszero", "isZero(" + H(x) + ")"); return false; }
    int p = -1;
    for (int i = 127; i >= 0; i--) if (x >> i & 1) p = 127 - i;
    if (calc_1pos(w) != p) { mc::fail("pos", "calc_1pos(" + H(x) + ") = " + to_string(calc_1pos(w)) + ", expected " + to_string(p)); return false; }
    Q r = 0;
    for (int i = 0; i < 128; i++) if (x >> i & 1) r |= Q(1) << (127 - i);
    if (!same("reverse", "reverse_bit(" + H(x) + ")", r, V(reverse_bit(w)))) return false;
    if (!same("convert64", "convert", Q(uint64_t(x)), V(convert<w128_t, uint64_t>(uint64_t(x))))) return false;
    if (!same("convert32", "convert", Q(uint32_t(x)), V(convert<w128_t, uint32_t>(uint32_t(x))))) return false;
    for (int i = 0; i < 4; i++) if (w.u[i] != uint32_t(x >> (32 * i))) { mc::fail("layout", "32-bit element order"); return false; }
    NTL::vec_GF2 v;
    // the same conversion the parity search uses
    v.SetLength(128);
    for (int i = 0; i < 128; i++) v.put(i, long(x >> (127 - i) & 1));
    if (!same("fromvec", "fromGF2Vec", x, V(fromGF2Vec<w128_t>(v)))) return false;
    w128_t z = w; setZero(z);
    if (V(z) != 0 || V(w) != x) { mc::fail("setzero", "setZero"); return false; }
    mc::trace();
    return true;
}
static bool two(Q x, Q y) {
    w128_t a = W(x), b = W(y), c;
    mc::trans(8);
    if (!same("and", H(x) + " & " + H(y), x & y, V(a & b)) || !same("and_mask", "and_mask", x & y, V(and_mask(a, b)))) return false;
    if (!same("xor", H(x) + " ^ " + H(y), x ^ y, V(a ^ b))) return false;
    c = a; c |= b; if (!same("or=", H(x) + " |= " + H(y), x | y, V(c))) return false;
    c = a; c ^= b; if (!same("xor=", H(x) + " ^= " + H(y), x ^ y, V(c))) return false;
    if ((a == b) != (x == y)) { mc::fail("eq", H(x) + " == " + H(y)); return false; }
    c = a; c ^= c; if (V(c) != 0) { mc::fail("xor=self", "x ^= x"); return false; }
    return true;
}
void mc_main() {
    static const Q dense[] = { (Q(0x0123456789abcdefull) << 64) | 0xfedcba9876543210ull, (Q(0x8000000000000001ull) << 64) | 0x8000000000000001ull, (Q(0xa5a5a5a5a5a5a5a5ull) << 64) | 0x5a5a5a5a5a5a5a5aull, Q(0xffffffffffffffffull) << 64, Q(0xffffffffffffffffull), (Q(0xf) << 60) };
    for (int c = 0; c < 2; c++) for (int i = 0; i < 128; i++) {
        if (!mc::begin("pattern", c, i)) continue;
        Q n = c ? ~Q(0) : Q(0);
        bool good = i ? true : one(n);
        for (Q d : dense) { good = good && one((d << i | (i ? d >> (128 - i) : Q(0))) ^ n); }
        for (int j = i; j < 128 && good; j++) good = one((Q(1) << i | Q(1) << j) ^ n) && one((low(j + 1) & ~low(i)) ^ n);
        if (mc::g.thorough) for (int j = i; j < 128 && good; j++) for (int k = j; k < 128 && good; k++) good = one((Q(1) << i | Q(1) << j | Q(1) << k) ^ n);
        mc::nontrivial();
        if (mc::want_sample()) mc::sample(mc::describe());
    }
    for (int i = 0; i <= 128; i++) {
        if (!mc::begin("pairs", i)) continue;
        bool good = same("mask", "make_msb_mask(" + to_string(i) + ")", ~low(128 - i), V(make_msb_mask(i)));
        for (int j = 0; j <= 128 && good; j++) for (int k = 0; k <= 128 && good; k += 1) {
            good = two(low(i), low(j) ^ (k < 128 ? Q(1) << k : Q(0)));
            if (good && i < 128 && j < 128) good = two(Q(1) << i, k < 128 ? (Q(1) << j | Q(1) << k) : Q(1) << j);
        }
        mc::state(129 * 129); mc::trace(); mc::nontrivial();
    }
    if (mc::begin("one")) { same("getone", "getOne", 1, V(getOne<w128_t>())); if (bit_size<w128_t>() != 128) mc::fail("size", "bit_size"); mc::trace(); }
}
