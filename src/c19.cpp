// C19: the helpers of util.hpp against their definitions.
#include "mc.hpp"
#include "oracle.hpp"
#include <MTToolBox/util.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

static uint8_t REV[256], POP[256];
static inline int pop(uint64_t x) { int r = 0; for (; x; x >>= 8) r += POP[x & 255]; return r; }
static inline uint32_t rev32(uint32_t x) { return uint32_t(REV[x & 255]) << 24 | uint32_t(REV[x >> 8 & 255]) << 16 | uint32_t(REV[x >> 16 & 255]) << 8 | REV[x >> 24]; }
static inline uint64_t rev64(uint64_t x) { return uint64_t(rev32(uint32_t(x))) << 32 | rev32(uint32_t(x >> 32)); }
template<class U> static inline int low1(U x) { if (!x) return -1; return int(sizeof(U) * 8) - 1 - __builtin_ctzll(uint64_t(x)); }

template<class U> static bool bits(U x) {
    const int w = int(sizeof(U) * 8);
    if (count_bit(x) != pop(x)) { mc::fail("count", "count_bit(" + mc::hex(x) + ") of " + to_string(w) + " bits = " + to_string(count_bit(x))); return false; }
    if (calc_1pos(x) != low1(x)) { mc::fail("pos", "calc_1pos(" + mc::hex(x) + ") of " + to_string(w) + " bits = " + to_string(calc_1pos(x)) + ", expected " + to_string(low1(x))); return false; }
    return true;
}
static bool revs(uint32_t x) { if (reverse_bit(x) != rev32(x)) { mc::fail("reverse32", "reverse_bit(" + mc::hex(x) + ") = " + mc::hex(reverse_bit(x))); return false; } return true; }
static bool revs(uint64_t x) { if (reverse_bit(x) != rev64(x)) { mc::fail("reverse64", "reverse_bit(" + mc::hex(x) + ") = " + mc::hex(reverse_bit(x))); return false; } return true; }
static bool revs(uint16_t) { return true; }
template<class U> static bool vecs(U x) {
    const int w = int(sizeof(U) * 8);
    NTL::vec_GF2 v;
    v.SetLength(3); v.put(1, 1);                      // what it held before does not matter
    toGF2Vec<U>(v, x);
    mc::trans(2);
    if (v.length() != w) { mc::fail("tovec", "toGF2Vec gives " + to_string(v.length()) + " elements for " + to_string(w) + " bits"); return false; }
    for (int i = 0; i < w; i++) if (NTL::IsOne(v.get(i)) != (x >> (w - 1 - i) & 1)) { mc::fail("tovec", "toGF2Vec(" + mc::hex(x) + "): element " + to_string(i)); return false; }
    U y = fromGF2Vec<U>(v);
    if (y != x) { mc::fail("fromvec", "fromGF2Vec gives " + mc::hex(y) + " for " + mc::hex(x)); return false; }
    return true;
}
template<class U> static bool access(U x) {
    const int w = int(sizeof(U) * 8);
    for (int p = 0; p < w; p++) {
        if (getBitOfPos<U>(x, p) != unsigned(x >> p & 1)) { mc::fail("getbit", "bit " + to_string(p) + " of " + mc::hex(x)); return false; }
        for (unsigned b = 0; b < 4; b++) {
            U y = x;
            setBitOfPos<U>(&y, p, b);
            U want = (b & 1) ? U(x | U(1) << p) : U(x & U(~(U(1) << p)));
            if (y != want) { mc::fail("setbit", "setting bit " + to_string(p) + " of " + mc::hex(x) + " to " + to_string(b & 1) + " gives " + mc::hex(y)); return false; }
        }
    }
    mc::trans(5 * w);
    U z = x; setZero(z);
    if (z != 0 || isZero(x) != (x == 0) || !isZero(z) || getOne<U>() != 1) { mc::fail("zero", "setZero, isZero or getOne on " + mc::hex(x)); return false; }
    return true;
}
template<class U> static bool full(U x) { return bits(x) && revs(x) && vecs(x) && access(x); }
template<class U, class F> static void patterns(F f) {
    const int w = int(sizeof(U) * 8);
    for (int c = 0; c < 2; c++) {
        auto g = [&](U x) { return f(c ? U(~x) : x); };
        if (!g(0)) return;
        for (int i = 0; i < w; i++) for (int j = i; j < w; j++) {
            if (!g(U(U(1) << i | U(1) << j))) return;
            U run = 0; for (int k = i; k <= j; k++) run = U(run | U(1) << k);
            if (!g(run)) return;
        }
    }
}
static void words() {
    for (uint32_t hi = 0; hi < 256; hi++) {
        if (!mc::begin("all16", hi)) continue;
        for (uint32_t lo = 0; lo < 256; lo++) if (!full<uint16_t>(uint16_t(hi << 8 | lo))) break;
        mc::state(256); mc::trace(256); mc::nontrivial();
    }
    for (uint32_t hi = 0; hi < 1024; hi++) {
        if (!mc::begin("all32", hi)) continue;
        uint32_t x = hi << 22;
        for (uint32_t i = 0; i < (1u << 22); i++, x++) {
            if (count_bit(x) != pop(x) || calc_1pos(x) != low1(x) || reverse_bit(x) != rev32(x)) { if (bits(x)) revs(x); break; }
        }
        mc::state(1u << 22); mc::trace(3u << 22); mc::nontrivial();
    }
    if (mc::begin("pattern32")) { patterns<uint32_t>([](uint32_t x) { mc::state(); mc::trace(); return full<uint32_t>(x); }); mc::nontrivial(); }
    if (mc::begin("pattern64")) { patterns<uint64_t>([](uint64_t x) { mc::state(); mc::trace(); return full<uint64_t>(x); }); mc::nontrivial(); }
    for (int i = 0; i < 8; i++) for (int a = 0; a < 256; a++) {
        if (!mc::begin("bytes64", i, a)) continue;
        bool good = true;
        for (int j = 0; j < 8 && good; j++) for (int b = 0; b < 256 && good; b++) {
            uint64_t x = uint64_t(a) << (8 * i) ^ uint64_t(b) << (8 * j);
            good = bits<uint64_t>(x) && revs(x) && bits<uint64_t>(~x) && revs(~x);
            if (good && (mc::g.thorough || (b & 15) == 5)) good = vecs<uint64_t>(x) && access<uint64_t>(~x);
        }
        mc::state(4096); mc::trace(8192); mc::nontrivial();
    }
}
template<class T> static bool flo(T n) {
    T w = T(uint64_t(1) << orc::deg64(uint64_t(n)));
    if (floor2p<T>(n) != w) { mc::fail("floor2p", "floor2p(" + to_string(uint64_t(n)) + ") = " + to_string(uint64_t(floor2p<T>(n)))); return false; }
    return true;
}
static void floors() {
    for (int h = 0; h < 64; h++) {
        if (!mc::begin("floor2p", h)) continue;
        bool good = true;
        for (uint32_t n = h * 65536 + (h == 0); n < uint32_t(h + 1) * 65536 && good; n++) { good = flo<int>(int(n)) && flo<uint32_t>(n) && flo<uint64_t>(n); mc::state(); }
        for (int d = -3; d <= 3 && good; d++) {
            uint64_t n = (uint64_t(1) << h) + d;
            if (n == 0) continue;
            good = flo<uint64_t>(n);
            if (good && n < (uint64_t(1) << 32)) good = flo<uint32_t>(uint32_t(n));
            if (good && n < (uint64_t(1) << 31)) good = flo<int>(int(n));
            if (good && n < 65536) good = flo<uint16_t>(uint16_t(n));
        }
        mc::trace(65536 * 3); mc::nontrivial();
    }
}
template<class T> static bool range(T x, int s, int e) {
    int64_t n = int64_t(e) - s + 1;
    int64_t w = s + int64_t(uint64_t(x) % uint64_t(n));
    int g = get_range<T>(x, s, e);
    if (g != w) { mc::fail("range", "get_range(" + to_string(uint64_t(x)) + ", " + to_string(s) + ", " + to_string(e) + ") = " + to_string(g) + ", expected " + to_string(w)); return false; }
    return true;
}
static void ranges() {
    static const uint64_t base[] = { 0, 1, 100, 1000, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x123456789abcdefull };
    for (int s = 0; s < 40; s++) for (int n = 0; n < 70; n++) {
        if (!mc::begin("range", s, n)) continue;
        bool good = true;
        for (uint64_t b : base) for (int d = -40; d <= 40 && good; d++) {
            uint64_t x = b + d;
            good = range<uint64_t>(x, s, s + n) && range<uint32_t>(uint32_t(x), s, s + n) && range<uint16_t>(uint16_t(x), s, s + n);
            // negative bounds, and wide ones
            if (good) good = range<uint32_t>(uint32_t(x), s - 50, s - 50 + n) && range<uint64_t>(x, s, s + n * 1000003);
            mc::state(5); mc::trans(5);
        }
        mc::trace(); mc::nontrivial();
    }
}
template<class T> static void tables() {
    for (int lg = 0; lg <= 10; lg++) for (int size = (1 << lg); size < (2 << lg); size += (lg < 5 ? 1 : (1 << lg))) for (int k = 0; k < 4; k++) {
        if (!mc::begin("table", sizeof(T) * 8, size, k)) continue;
        vector<T> src(lg + 1), dst(size, 0);
        for (int i = 0; i <= lg; i++) src[i] = k == 0 ? T(T(1) << i) : k == 1 ? T(0x9e3779b97f4a7c15ull * (i + 1) >> 7) : k == 2 ? T(~T(0)) : T(i & 1 ? 0 : T(1) << (sizeof(T) * 8 - 1 - i));
        vector<T> keep = src;
        fill_table<T>(&dst[0], &src[0], size);
        for (int i = 0; i < size; i++) {
            T w = 0;
            for (int j = 0; j <= lg; j++) if (i >> j & 1) w = T(w ^ keep[j]);
            if (dst[i] != w) { mc::fail("table", "entry " + to_string(i) + " of " + to_string(size) + " is " + mc::hex(dst[i]) + ", expected " + mc::hex(w)); break; }
        }
        if (src != keep) mc::fail("table-src", "the source was changed");
        mc::state(size); mc::trace(); mc::nontrivial();
    }
}
static void lcms(int maxdeg) {
    for (uint64_t a = 0; a < (uint64_t(2) << maxdeg); a++) {
        if (!mc::begin("lcm", a)) continue;
        NTL::GF2X A = orc::to_ntl(a);
        for (uint64_t b = 0; b < (uint64_t(2) << maxdeg); b++) {
            if (!a && !b) continue;
            uint64_t w = a && b ? orc::div64(orc::mul64(a, b), orc::gcd64(a, b)) : 0;
            NTL::GF2X B = orc::to_ntl(b), l = orc::to_ntl(0x1234), x = A, y = B;
            LCM(l, A, B);
            LCM(x, x, B);
            LCM(y, A, y);
            mc::trans(3); mc::state();
            if (orc::ntl_u64(l) != w || orc::ntl_u64(x) != w || orc::ntl_u64(y) != w) { mc::fail("lcm", "lcm of " + orc::str64(a) + " and " + orc::str64(b) + ": " + orc::str(l) + ", " + orc::str(x) + ", " + orc::str(y) + ", expected " + orc::str64(w)); break; }
            if (orc::ntl_u64(A) != a || orc::ntl_u64(B) != b) { mc::fail("lcm-args", "the arguments were changed"); break; }
        }
        mc::trace(); if (a > 1) mc::nontrivial();
    }
}
static bool printed(const orc::Bits& p) {
    NTL::GF2X f = orc::to_ntl(p);
    int d = orc::degb(p);
    for (int brk = 0; brk < 3; brk++) {
        std::ostringstream os;
        if (brk == 2) print_binary(os, f); else print_binary(os, f, brk == 1);
        string s = os.str(), w;
        if (d < 0) w = "0deg=-1\n";
        else {
            for (int i = 0; i <= d; i++) { w += char('0' + p[i]); if (brk && i % 32 == 31) w += '\n'; }
            w += "deg=" + to_string(d) + "\n";
        }
        mc::trans();
        if (s != w) { mc::fail("print", "printed \"" + s + "\", expected \"" + w + "\""); return false; }
    }
    return true;
}
static void prints() {
    for (uint64_t h = 0; h < 64; h++) {
        if (!mc::begin("print", h)) continue;
        for (uint64_t l = 0; l < 64; l++) { mc::state(); if (!printed(orc::from_u64(h << 6 | l))) break; }
        mc::trace(64); mc::nontrivial();
    }
    for (int d = 12; d < 200; d++) {
        if (!mc::begin("print-long", d)) continue;
        for (int i = 0; i < d; i++) { orc::Bits b(d + 1, 0); b[d] = 1; b[i] = 1; b[i / 2] ^= 1; b[d] = 1; mc::state(); if (!printed(b)) break; }
        mc::trace(d); mc::nontrivial();
    }
}
void mc_main() {
    for (int i = 0; i < 256; i++) { REV[i] = 0; POP[i] = 0; for (int b = 0; b < 8; b++) if (i >> b & 1) { REV[i] |= 1 << (7 - b); POP[i]++; } }
    words(); floors(); ranges();
    tables<uint16_t>(); tables<uint32_t>(); tables<uint64_t>();
    lcms(mc::g.thorough ? 10 : 8);
    prints();
    if (mc::begin("sizes")) {
        if (bit_size<uint16_t>() != 16 || bit_size<uint32_t>() != 32 || bit_size<uint64_t>() != 64) mc::fail("bit_size", "bit_size");
        uint64_t v = convert<uint64_t, uint32_t>(0xfedcba98u); if (v != 0xfedcba98u) mc::fail("convert", "convert");
        mc::trace();
    }
}
