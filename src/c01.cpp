// C01: the minimal polynomial of every linearly generated output bit sequence.
#include "mc.hpp"
#include "gens.hpp"
#include <MTToolBox/period.hpp>
using namespace MTToolBox;
using namespace NTL;

static GF2X reused;   // deliberately never cleared: the result must not depend on what it held

template<class U> static void check(const gen::Spec<U>& s, uint64_t x0, int pos, int stateSize) {
    int size = stateSize > 0 ? stateSize : s.declared;
    std::vector<uint8_t> seq;
    uint64_t x = x0;
    for (int i = 0; i < 2 * size; i++) {
        U r;
        if (s.before) { r = s.out(x); x = s.step(x); } else { x = s.step(x); r = s.out(x); }
        seq.push_back(r >> pos & 1);
        mc::trans();
    }
    orc::Bits want = orc::minpoly_seq(seq);
    if (size <= 4) {
        uint64_t b = orc::minpoly_brute(seq, size);
        if (b != orc::to_u64(want)) { mc::fail("oracle", "the two reference definitions disagree"); return; }
    }
    gen::Plain<U> g(s, x0);
    mc::guarded("minpoly", [&] {
        if (stateSize > 0) minpoly<U>(reused, g, pos, stateSize);
        else if (pos > 0) minpoly<U>(reused, g, pos);
        else minpoly<U>(reused, g);
    });
    orc::Bits got = orc::from_ntl(reused);
    mc::state();
    mc::trace();
    if (orc::degb(want) > 0) mc::nontrivial();
    mc::outcome("minpoly", orc::degb(want) < 9 ? orc::str(want) : "deg" + std::to_string(orc::degb(want)));
    if (got != want) mc::fail("minpoly", "minimal polynomial expected " + orc::str(want) + " got " + orc::str(got));
    else if (mc::want_sample() && orc::degb(want) > 2)
        mc::sample(mc::describe() + " minpoly " + orc::str(got));
}
// every LFSR of length n from every state: every sequence of linear complexity <= n
template<class U> static void lfsr(int n, int pos, int extra, bool before, bool all) {
    for (uint64_t c = 0; c < (uint64_t(1) << n); c++)
        for (uint64_t x0 = all ? 0 : 1; x0 < (all ? uint64_t(1) << n : 2); x0++) {
            if (!mc::begin("lfsr", n, int(sizeof(U) * 8), pos, extra, before, c, x0)) continue;
            gen::Spec<U> s;
            s.n = s.declared = n; s.before = before;
            // shift register: bit i <- bit i+1, bit n-1 <- parity(c & x)
            for (int j = 0; j < n; j++) {
                uint64_t col = j > 0 ? uint64_t(1) << (j - 1) : 0;
                if (c >> j & 1) col |= uint64_t(1) << (n - 1);
                s.t[j] = col;
            }
            const int w = int(sizeof(U) * 8);
            for (int j = 0; j < n; j++) {
                U o = 0;
                if (j == 0) o = U(U(1) << pos);
                // the other output bits carry other, unrelated functionals
                for (int b = 0; b < w; b++) if (b != pos && ((b * 7 + j * 5 + b / 3) % 3 == 0)) o = U(o | (U(1) << b));
                s.o[j] = o;
            }
            check<U>(s, x0, pos, extra ? n + extra : 0);
        }
}
// every transition matrix, every state, every state bit (companion classes do not hide anything)
static void matrices(int n) {
    for (uint64_t m = 0; m < (uint64_t(1) << (n * n)); m++) {
        if (!mc::begin("matrix", n, m)) continue;
        gen::Spec<uint32_t> s;
        s.n = s.declared = n;
        for (int j = 0; j < n; j++) { s.t[j] = m >> (j * n) & ((1u << n) - 1); s.o[j] = uint32_t(1) << j; }
        for (uint64_t x0 = 0; x0 < (uint64_t(1) << n); x0++)
            for (int pos = 0; pos < n; pos++) check<uint32_t>(s, x0, pos, 0);
    }
}
// long registers: all trinomials and the register's own companion around the word sizes
struct Long : public AbstractGenerator<uint64_t> {
    int n, k, pos; std::vector<uint8_t> st;
    size_t at;
    uint64_t generate() {
        uint8_t v = st[at];
        st[at] = st[at] ^ st[(at + k) % n];
        at = (at + 1) % n;
        return (uint64_t(v) << pos) ^ (uint64_t(v ^ 1) << ((pos + 1) % 64)) ^ (at & 1 ? uint64_t(1) << ((pos + 9) % 64) : 0);
    }
    void seed(uint64_t) {}
    int bitSize() const { return n; }
};
static void longreg(int n) {
    for (int k = 0; k < n; k++)
        for (int init = 0; init < 3; init++) {
            if (!mc::begin("trinomial", n, k, init)) continue;
            Long g;
            g.n = n; g.k = k; g.pos = (n + 7 * k) % 64; g.at = 0; g.st.assign(n, 0);
            if (init == 0) g.st[0] = 1;
            else if (init == 1) g.st[n - 1] = 1;
            else for (int i = 0; i < n; i++) g.st[i] = (i * i + i / 5) % 3 == 1;
            Long h = g;
            std::vector<uint8_t> seq;
            for (int i = 0; i < 2 * n; i++) { seq.push_back(h.generate() >> g.pos & 1); mc::trans(); }
            orc::Bits want = orc::minpoly_seq(seq);
            mc::guarded("minpoly", [&] { minpoly<uint64_t>(reused, g, g.pos); });
            mc::state(); mc::trace(); if (orc::degb(want) > 0) mc::nontrivial();
            orc::Bits got = orc::from_ntl(reused);
            if (got != want) mc::fail("minpoly", "minimal polynomial of x^" + std::to_string(n) + "+x^" + std::to_string(k)
                                      + "+1 register: expected " + orc::str(want) + " got " + orc::str(got));
        }
}
// registers of the sizes the library's own programs build: irreducible trinomials of Mersenne degrees, so every
// nonzero state has the trinomial itself as its minimal polynomial; declared exactly or with slack
static void known(int n, int k) {
    static const int slack[] = { 0, 1, 31, 63, 64, 1000 };
    for (int mirror = 0; mirror < 2; mirror++)
        for (int init = 0; init < 4; init++)
            for (int e : slack) {
                if (!mc::begin("mersenne-register", n, k, mirror, init, e)) continue;
                Long g;
                g.n = n; g.k = mirror ? n - k : k; g.at = 0; g.st.assign(n, 0);
                static const int P[] = { 0, 63, 31, 32 };
                g.pos = P[init];
                if (init == 0) g.st[n - 1] = 1;
                else if (init == 1) g.st[0] = 1;
                else if (init == 2) g.st.assign(n, 1);
                else for (int i = 0; i < n; i++) g.st[i] = (i * 7 + i / 11) % 5 < 2;
                orc::Bits want(n + 1, 0);
                want[0] = want[g.k] = want[n] = 1;
                struct Slack : public Long { int e; int bitSize() const { return n + e; } } h;
                static_cast<Long&>(h) = g; h.e = e;
                mc::guarded("minpoly", [&] { minpoly<uint64_t>(reused, h, g.pos); });
                mc::state(); mc::trans(2ull * (n + e)); mc::trace(); mc::nontrivial();
                if (orc::from_ntl(reused) != want)
                    mc::fail("minpoly", "register of the irreducible x^" + std::to_string(n) + "+x^" + std::to_string(g.k)
                             + "+1: minimal polynomial of degree " + std::to_string(NTL::deg(reused)) + ", weight " + std::to_string(NTL::weight(reused)));
            }
}
void mc_main() {
    static const int irr[][2] = { { 521, 32 }, { 607, 105 }, { 1279, 216 }, { 2281, 715 }, { 3217, 67 }, { 4423, 271 }, { 9689, 84 },
                                  { 19937, 881 }, { 23209, 1530 }, { 44497, 8575 } };
    for (auto& t : irr) known(t[0], t[1]);
    int N = mc::g.thorough ? 10 : 8;
    for (int n = 1; n <= N; n++) { lfsr<uint32_t>(n, 0, 0, false, true); lfsr<uint32_t>(n, 31, 0, true, true); }
    for (int n = 1; n <= N - 1; n++) lfsr<uint64_t>(n, 63, 0, false, true);
    // every bit position of every word type, every explicit size from exact to generous
    int P = mc::g.thorough ? 6 : 5;
    for (int n = 1; n <= P; n++) {
        for (int pos = 0; pos < 16; pos++) lfsr<uint16_t>(n, pos, 0, false, true);
        for (int pos = 0; pos < 32; pos++) lfsr<uint32_t>(n, pos, 0, false, true);
        for (int pos = 0; pos < 64; pos++) lfsr<uint64_t>(n, pos, 0, true, true);
        for (int e = 1; e <= 7; e++) { lfsr<uint32_t>(n, e, e, false, true); lfsr<uint64_t>(n, 63 - e, e, false, true); }
    }
    for (int n = 1; n <= 3; n++) matrices(n);
    if (mc::g.thorough) matrices(4);
    // from the impulse state: every connection polynomial of a longer register
    for (int n = 9; n <= (mc::g.thorough ? 16 : 12); n++) lfsr<uint64_t>(n, n * 3, 0, false, false);
    static const int big[] = { 15, 16, 17, 31, 32, 33, 61, 63, 64, 65, 89, 95, 96, 97, 107, 127, 128, 129, 160 };
    for (int n : big) longreg(n);
    if (mc::g.thorough) { longreg(255); longreg(256); longreg(257); longreg(521); }
}
