// C07: the parity vector of a reducible generator, against every state of small machines.
#include "mc.hpp"
#include "gens.hpp"
#include <NTL/GF2XFactoring.h>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

// a machine with an explicit check word: bit b of it is the functional chk[b]
template<class U> struct Machine {
    int n, mexp;
    uint64_t t[64];
    U p[64];                 // column j: contribution of state bit j to the check word
    uint64_t step(uint64_t x) const { uint64_t r = 0; for (; x; x &= x - 1) r ^= t[__builtin_ctzll(x)]; return r; }
    U chk(uint64_t x) const { U r = 0; for (; x; x &= x - 1) r = U(r ^ p[__builtin_ctzll(x)]); return r; }
};
template<class U> class Gen : public ReducibleGenerator<U> {
public:
    const Machine<U> *m; uint64_t x; U parity; int set;
    Gen(const Machine<U>& mm, uint64_t x0) : m(&mm), x(x0), parity(0), set(0) {}
    U generate() { x = m->step(x); return m->chk(x); }
    U generate(int v) { return U(generate() & gen::topmask<U>(v)); }
    void seed(U v) { x = v; }
    int bitSize() const { return m->n; }
    void setUpParam(ParameterGenerator&) {}
    const string getHeaderString() { return ""; }
    const string getParamString() { return ""; }
    Gen *clone() const { return new Gen(*this); }
    void add(EquidistributionCalculatable<U>& o) { x ^= dynamic_cast<Gen&>(o).x; }
    void setZero() { x = 0; }
    bool isZero() const { return x == 0; }
    void setOneBit(int b) { x = uint64_t(1) << b; }
    U getParityValue() const { return m->chk(x); }
    void setParityValue(U p) { parity = p; set++; }
    int getMexp() const { return m->mexp; }
};
template<class U> static uint64_t apply(const Machine<U>& s, uint64_t p, uint64_t x) {
    uint64_t r = 0;
    for (; p; p >>= 1) { if (p & 1) r ^= x; x = s.step(x); }
    return r;
}
// the search asks that a non-zero state shows in its check word sooner or later
template<class U> static bool observable(const Machine<U>& m) {
    vector<uint64_t> rows;
    vector<uint64_t> cur(m.n);
    for (int j = 0; j < m.n; j++) cur[j] = uint64_t(1) << j;
    for (int i = 0; i < m.n; i++) {
        for (int b = 0; b < int(sizeof(U) * 8); b++) {
            uint64_t r = 0;
            for (int j = 0; j < m.n; j++) if (m.chk(cur[j]) >> b & 1) r |= uint64_t(1) << j;
            if (!r) continue;
            vector<uint64_t> t = rows; t.push_back(r);
            if (orc::rank64(t) == int(t.size())) rows = t;
        }
        if (int(rows.size()) == m.n) return true;
        for (int j = 0; j < m.n; j++) cur[j] = m.step(cur[j]);
    }
    return false;
}
// f: irreducible of degree m.mexp.  states: enumerate every state and its orbit
template<class U> static void check(const Machine<U>& m, const NTL::GF2X& F, const vector<uint64_t>& comp, bool orbits, uint64_t f) {
    mc::state();
    if (!observable(m)) { mc::count("check_word_does_not_see_the_state"); return; }
    mc::guarded("parity-exception", [&] {
        mc::Quiet q;
        Gen<U> g(m, 5 & ((uint64_t(1) << m.n) - 1));
        AlgorithmCalculateParity<U, Gen<U> > cp;
        U p = cp.searchParity(g, F);
        mc::trace(); mc::trans(m.n);
        if (p == 0) { mc::fail("parity-zero", "the parity vector is zero"); return; }
        if (g.parity != p || g.set < 1) { mc::fail("parity-installed", "returned " + mc::hex(p) + " but the generator holds " + mc::hex(g.parity)); return; }
        for (uint64_t y : comp) {
            mc::trans();
            if (__builtin_parityll(p & m.chk(y))) { mc::fail("parity-orthogonal", "parity vector " + mc::hex(p) + " has inner product 1 with the check word of state " + mc::hex(y) + ", which has no component on the factor"); return; }
        }
        mc::nontrivial();
        mc::outcome("parity", long(p));
        if (mc::want_sample()) mc::sample(mc::describe() + ": parity " + mc::hex(p));
        if (orbits) {
            uint64_t ord = orc::order_x(f);
            bool some = false;
            for (uint64_t x0 = 1; x0 < (uint64_t(1) << m.n); x0++) {
                if (!__builtin_parityll(p & m.chk(x0))) continue;
                some = true;
                uint64_t x = x0, per = 0;
                do { x = m.step(x); per++; } while (x != x0);
                mc::trans(per);
                if (per % ord) { mc::fail("period", "state " + mc::hex(x0) + " is certified but its period " + to_string(per) + " is not a multiple of " + to_string(ord)); return; }
            }
            if (!some && m.n <= int(sizeof(U)) * 8) mc::count("no_state_certified");
        }
    });
}
template<class U> static vector<uint64_t> image(const Machine<U>& m, uint64_t f) {
    vector<uint64_t> b;
    for (int i = 0; i < m.n; i++) {
        vector<uint64_t> r = b; r.push_back(apply(m, f, uint64_t(1) << i));
        if (orc::rank64(r) == int(r.size())) b = r;
    }
    return b;
}
static vector<uint64_t> irreducibles(int maxd) {
    vector<uint64_t> r;
    for (uint64_t f = 3; f < (uint64_t(2) << maxd); f += 2) {
        bool ok = true;
        for (uint64_t d = 2; orc::deg64(d) * 2 <= orc::deg64(f); d++) if (orc::mod64(f, d) == 0) { ok = false; break; }
        if (ok) r.push_back(f);
    }
    return r;
}
template<class U> static void checkword(Machine<U>& m, int kind) {
    const int w = int(sizeof(U) * 8);
    for (int j = 0; j < m.n; j++) {
        U c = 0;
        switch (kind) {
        case 0: c = j < w ? U(U(1) << j) : U(0); break;                        // low bits of the state
        case 1: c = U(U(1) << (w - 1 - j % w)); break;                         // reversed, folded
        case 2: c = U(U(1) << ((j * 5 + 2) % w)); break;                       // scattered
        case 3: c = U((U(3) << (j % (w - 1)))); break;                         // overlapping
        case 4: c = j & 1 ? U(U(1) << (j % w)) : U(0); break;                  // only half of the state is seen
        }
        m.p[j] = c;
    }
}
// every invertible matrix of size n, every simple irreducible factor of its characteristic polynomial
template<class U> static void matrices(int n, int kinds, int stride) {
    vector<uint64_t> irr = irreducibles(n);
    for (uint64_t c = 0; c < (uint64_t(1) << (n * n)); c += stride) {
        Machine<U> m;
        m.n = n;
        vector<uint64_t> cols;
        for (int j = 0; j < n; j++) { m.t[j] = c >> (j * n) & ((1u << n) - 1); cols.push_back(m.t[j]); }
        if (orc::rank64(cols) < n) continue;
        if (!mc::begin("matrix", n, c, sizeof(U) * 8)) continue;
        for (uint64_t f : irr) {
            int d = orc::deg64(f);
            vector<uint64_t> comp = image(m, f);
            if (int(comp.size()) != n - d) continue;
            if (int(image(m, orc::mul64(f, f)).size()) != n - d) continue;
            m.mexp = d;
            for (int k = 0; k < kinds; k++) {
                checkword(m, k);
                check<U>(m, orc::to_ntl(f), comp, n <= 3 || k == 0, f);
            }
        }
    }
}
// F[t]/f + F[t]/q1 + F[t]/q2 in a twisted basis, larger
template<class U> static void sums(uint64_t f, uint64_t q1, uint64_t q2) {
    int d = orc::deg64(f), d1 = orc::deg64(q1), d2 = q2 > 1 ? orc::deg64(q2) : 0, n = d + d1 + d2;
    const int w = int(sizeof(U) * 8);
    if (n - d >= w || n > 62) return;
    for (int tw = 0; tw < 6; tw++) {
        if (!mc::begin("sum", f, q1, q2, tw, w)) continue;
        uint64_t raw[64];
        int off = 0;
        for (uint64_t q : { f, q1, q2 }) {
            if (q <= 1) continue;
            int e = orc::deg64(q);
            for (int i = 0; i < e; i++) raw[off + i] = (i == e - 1 ? q ^ (uint64_t(1) << e) : uint64_t(2) << i) << off;
            off += e;
        }
        // change of basis P = product of elementary column operations, applied with its inverse
        auto conj = [&](int a, int b) {          // new basis e'_a = e_a + e_b
            raw[a] ^= raw[b];
            for (int j = 0; j < n; j++) if (raw[j] >> a & 1) raw[j] ^= uint64_t(1) << b;
        };
        if (tw) for (int r = 0; r < 3 * n; r++) { int a = (r * (2 * tw + 1) + tw) % n, b = (r * 7 + tw * 3 + r / n) % n; if (a != b) conj(a, b); }
        Machine<U> m;
        m.n = n; m.mexp = d;
        for (int j = 0; j < n; j++) m.t[j] = raw[j];
        vector<uint64_t> comp = image(m, f);
        if (int(comp.size()) != n - d) { mc::fail("oracle", "component has the wrong size"); continue; }
        for (int k = 0; k < 5; k++) { checkword(m, k); check<U>(m, orc::to_ntl(f), comp, n <= 9 && k < 2, f); }
    }
}
// word-oriented: N words of U, x_{i+N} = x_i ^ (x_{i+1} << a) ^ (x_{i+N-1} >> b) ^ (x_{i+N-1} << c); check word = one word
template<class U> static void words(int N, int a, int b, int c) {
    const int w = int(sizeof(U) * 8);
    for (int pos = 0; pos < N; pos++) {
        if (!mc::begin("words", w, N, a, b, c, pos)) continue;
        Machine<U> m;
        m.n = N * w;
        U all = U(~U(0));
        for (int j = 0; j < m.n; j++) {
            U s[8] = { 0 };
            s[j / w] = U(U(1) << (j % w));
            U nw = U(s[0] ^ U(s[1] << a) ^ U(s[N - 1] >> b) ^ U(s[N - 1] << c)) & all;
            uint64_t col = 0;
            for (int i = 0; i < N; i++) col |= uint64_t(i + 1 < N ? s[i + 1] : nw) << (i * w);
            m.t[j] = col;
            m.p[j] = s[pos];
        }
        vector<uint64_t> cols(m.t, m.t + m.n);
        if (orc::rank64(cols) < m.n) continue;
        // characteristic polynomial: lcm of Krylov minimal polynomials, when it has full degree
        NTL::GF2X ch; NTL::SetCoeff(ch, 0);
        for (int j = 0; j < m.n && NTL::deg(ch) < m.n; j++) for (int b2 = 0; b2 < m.n; b2++) {
            vector<uint8_t> seq;
            uint64_t x = uint64_t(1) << j;
            for (int i = 0; i < 2 * m.n + 2; i++) { seq.push_back(x >> b2 & 1); x = m.step(x); }
            NTL::GF2X mp = orc::to_ntl(orc::minpoly_seq(seq));
            ch = ch / NTL::GCD(ch, mp) * mp;
            if (NTL::deg(ch) == m.n) break;
        }
        if (NTL::deg(ch) != m.n) { mc::count("derogatory"); continue; }
        NTL::vec_pair_GF2X_long fac;
        NTL::CanZass(fac, ch);
        for (int i = 0; i < fac.length(); i++) {
            int d = int(NTL::deg(fac[i].a));
            if (fac[i].b != 1 || m.n - d >= w || d < 2) continue;
            m.mexp = d;
            // image of f(T)
            vector<uint64_t> comp;
            for (int j = 0; j < m.n; j++) {
                uint64_t x = uint64_t(1) << j, y = 0;
                for (int k = 0; k <= d; k++) { if (NTL::coeff(fac[i].a, k) != 0) y ^= x; x = m.step(x); }
                comp.push_back(y);
            }
            check<U>(m, fac[i].a, comp, false, 0);
            mc::count("word_generators");
        }
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    for (int n = 2; n <= 3; n++) { matrices<uint32_t>(n, 5, 1); matrices<uint64_t>(n, 2, 1); matrices<uint16_t>(n, 2, 1); }
    matrices<uint32_t>(4, 5, 1);
    if (T) matrices<uint64_t>(4, 5, 1), matrices<uint32_t>(5, 2, 37);
    vector<uint64_t> irr = irreducibles(T ? 8 : 6);
    for (uint64_t f : irr) for (uint64_t q1 = 3; q1 < (T ? 256 : 64); q1 += 2) {
        if (orc::deg64(f) < 2 || orc::gcd64(f, q1) != 1) continue;
        sums<uint16_t>(f, q1, 1);
        if (q1 < 32) for (uint64_t q2 : { uint64_t(3), q1, uint64_t(0xb) }) if (orc::gcd64(f, q2) == 1) sums<uint32_t>(f, q1, q2);
        if (q1 == 15 || q1 == 0x2d) sums<uint64_t>(f, q1, 3);
    }
    // more state bits than the check word has: every parity vector means something
    {
        int cnt = 0;
        for (uint64_t f : irreducibles(13)) {
            int d = orc::deg64(f);
            if (d < 5 || (++cnt % (d < 8 ? 1 : d < 11 ? 9 : 61))) continue;
            for (int e = 17 - d > 3 ? 17 - d : 3; e <= 15; e++)
                for (uint64_t q1 = (uint64_t(1) << e) + 1; q1 < (uint64_t(2) << e); q1 += ((uint64_t(1) << e) / (T ? 64 : 12) | 1) + 1)
                    if (orc::gcd64(f, q1) == 1) sums<uint16_t>(f, q1, 1);
        }
        for (uint64_t f : { 0x800000000000000dull >> 3 | 1, 0x20009ull, 0x80000009ull, 0x2000000001ull << 1 | 1, 0x1000087ull, 0x409ull })
            for (uint64_t q1 = 3; q1 < 4096; q1 += T ? 2 : 22) {
                NTL::GF2X F = orc::to_ntl(f);
                if (NTL::IterIrredTest(F) && orc::gcd64(f, q1) == 1 && orc::deg64(f) > 20) { sums<uint16_t>(f, q1, 1); sums<uint32_t>(f, q1, 0x1fffull | 1); sums<uint32_t>(f, q1, 0x80f); }
            }
    }
    for (int a = 0; a < 16; a++) for (int b = 0; b < 17; b++) for (int c = 0; c < 17; c++) {
        words<uint16_t>(2, a, b, c);
        if (T || (a + 3 * b + c) % 3 == 0) words<uint16_t>(3, a, b, c);
    }
    for (int a = 0; a < 32; a += T ? 1 : 5) for (int b = 1; b < 32; b += T ? 2 : 3) words<uint32_t>(2, a, b, (a * 3 + b) % 31);
}
