// C05: dimension of equidistribution against its definition, on every small linear machine.
#include "mc.hpp"
#include "gens.hpp"
#include <MTToolBox/AlgorithmEquidistribution.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

template<class V> static string show(const V& v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + to_string(v[i]); return s; }

// mode 0: all values; 1: the single value and the sum below it
template<class U> static void check(const gen::Spec<U>& s, uint64_t x0, int v, int mexp, bool brute) {
    vector<U> o;
    uint64_t x = x0;
    for (int i = 0; i < 2 * s.n + 2; i++) {
        U r;
        if (s.before) { r = s.out(x); x = s.step(x); } else { x = s.step(x); r = s.out(x); }
        o.push_back(r);
    }
    vector<int> want(v);
    int base = mexp ? mexp : s.declared, sum = 0;
    for (int i = 1; i <= v; i++) {
        want[i - 1] = gen::stream_kv<U>(o, s.n, i);
        sum += base / i - want[i - 1];
        mc::trans();
    }
    if (brute) for (int i = 1; i <= v; i++) if (gen::brute_kv<U>(s, x0, i) != want[i - 1]) { mc::fail("oracle", "the two reference definitions disagree"); return; }
    mc::state();
    if (want[0] > 0) mc::nontrivial();
    mc::outcome("k", show(want));
    long live = gen::Lin<U>::live;
    mc::guarded("equidist", [&] {
        mc::Quiet q;
        gen::Lin<U> g(s, x0);
        vector<int> veq(v + 2, -77);
        int got;
        { AlgorithmEquidistribution<U> a(g, v, mexp); got = a.get_all_equidist(&veq[1]); }
        if (veq[0] != -77 || veq[v + 1] != -77) mc::fail("bounds", "wrote outside the caller's array");
        vector<int> gv(veq.begin() + 1, veq.end() - 1);
        if (gv != want) mc::fail("kv", "k(1.." + to_string(v) + ") expected " + show(want) + " got " + show(gv));
        else if (got != sum) mc::fail("sum", "total defect expected " + to_string(sum) + " got " + to_string(got));
        int rest = -1, k;
        { AlgorithmEquidistribution<U> a(g, v, mexp); k = a.get_equidist(&rest); }
        if (k != want[v - 1]) mc::fail("kv1", "k(" + to_string(v) + ") expected " + to_string(want[v - 1]) + " got " + to_string(k));
        if (rest != sum - (base / v - want[v - 1])) mc::fail("sum1", "sum of the gaps below " + to_string(v) + " expected " + to_string(sum - (base / v - want[v - 1])) + " got " + to_string(rest));
        if (g.x != x0) mc::fail("untouched", "the caller's generator was changed");
        if (mc::want_sample() && v > 1 && want[1] > 1) mc::sample(mc::describe() + ": k = " + show(gv) + ", defect " + to_string(got));
    });
    if (gen::Lin<U>::live != live) mc::fail("leak", "generator copies were left behind");
    mc::trace();
}
// functionals of the bits below the measured ones: present, and not to be measured
template<class U> static void noise(gen::Spec<U>& s, int v, uint64_t salt) {
    const int w = int(sizeof(U) * 8);
    for (int j = 0; j < s.n; j++)
        for (int b = v; b < w; b++) if ((b * 5 + j * 3 + salt + b * j / 4) % 3 == 0) s.o[j] = U(s.o[j] | (U(1) << (w - 1 - b)));
}
// every cyclic module F[t]/m of degree n, generated by 1, with every v x n output map
template<class U> static void modules(int n, int v, int stride, bool singular) {
    const int w = int(sizeof(U) * 8);
    for (uint64_t m = uint64_t(1) << n; m < (uint64_t(2) << n); m++) {
        if (!(m & 1) != singular) continue;
        for (uint64_t c = 0; c < (uint64_t(1) << (n * v)); c += stride) {
            if (!mc::begin(singular ? "module-singular" : "module", n, v, w, m, c)) continue;
            gen::Spec<U> s;
            gen::companion(s, m);
            s.before = (c ^ m) & 1;
            for (int j = 0; j < n; j++) {
                U o = 0;
                for (int b = 0; b < v; b++) if (c >> (b * n + j) & 1) o = U(o | (U(1) << (w - 1 - b)));
                s.o[j] = o;
            }
            noise(s, v, c);
            check<U>(s, 1, v, 0, !singular && n <= 4);
        }
    }
}
// every matrix and every state: start states that reach only part of the state space
template<class U> static void matrices(int n, int v) {
    const int w = int(sizeof(U) * 8);
    for (uint64_t m = 0; m < (uint64_t(1) << (n * n)); m++)
        for (uint64_t x0 = 0; x0 < (uint64_t(1) << n); x0++) {
            if (!mc::begin("matrix", n, v, w, m, x0)) continue;
            gen::Spec<U> s;
            s.n = s.declared = n;
            for (int j = 0; j < n; j++) { s.t[j] = m >> (j * n) & ((1u << n) - 1); s.o[j] = j < v ? U(U(1) << (w - 1 - j)) : U(0); }
            noise(s, v, m);
            for (int mexp = n - 1; mexp <= n + 3; mexp++) {
                // an exponent below the reachable dimension is outside the contract
                if (mexp < int(gen::cyclic(s, x0, false).size())) continue;
                check<U>(s, x0, v, mexp == n ? 0 : mexp, false);
            }
        }
}
// full-width words: bit b of the output is t^(a b + c) applied to the state, for every a and c
template<class U> static void wide(int n, uint64_t m, int v) {
    const int w = int(sizeof(U) * 8);
    uint64_t ord = orc::order_x(m);
    for (uint64_t a = 0; a < ord; a++) for (uint64_t c = 0; c < ord; c += 3) {
        if (!mc::begin("wide", n, m, v, w, a, c)) continue;
        gen::Spec<U> s;
        gen::companion(s, m);
        vector<uint64_t> pw(ord);           // t^i as states
        uint64_t x = 1;
        for (uint64_t i = 0; i < ord; i++) { pw[i] = x; x = s.step(x); }
        for (int b = 0; b < w; b++) {
            uint64_t e = (a * b + c) % ord;
            for (int j = 0; j < n; j++)       // low bit of t^e * t^j
                if (pw[(e + j) % ord] & 1) s.o[j] = U(s.o[j] | (U(1) << (w - 1 - b)));
        }
        check<U>(s, 1, v, 0, false);
    }
}
// registers of larger size: Fibonacci LFSR whose output word is a window of the register spaced by d
template<class U> static void windows(int n, uint64_t taps, int v) {
    const int w = int(sizeof(U) * 8);
    for (int d = 1; d < n; d++) for (int off = 0; off < n; off += 5) {
        if (!mc::begin("window", n, taps, v, w, d, off)) continue;
        gen::Spec<U> s;
        gen::companion(s, taps);
        for (int b = 0; b < w; b++) s.o[(off + b * d) % n] = U(s.o[(off + b * d) % n] ^ (U(1) << (w - 1 - b)));
        check<U>(s, 1, v, 0, false);
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    for (int n = 1; n <= 3; n++) for (int v = 1; v <= 4; v++) if (n * v <= 12) { modules<uint32_t>(n, v, 1, false); modules<uint32_t>(n, v, 1, true); }
    modules<uint32_t>(4, 2, 1, false);
    modules<uint32_t>(4, 3, 1, false);
    modules<uint32_t>(4, 3, 1, true);
    modules<uint32_t>(5, 2, 1, false);
    modules<uint64_t>(4, 2, 1, false); modules<uint64_t>(3, 3, 1, false);
    modules<uint16_t>(4, 2, 1, false); modules<uint16_t>(3, 3, 1, false);
    modules<uint32_t>(5, 3, T ? 1 : 7, false);
    modules<uint32_t>(6, 2, T ? 1 : 3, false);
    modules<uint32_t>(8, 1, 1, false);
    if (T) { modules<uint32_t>(4, 4, 1, false); modules<uint64_t>(5, 3, 1, false); modules<uint32_t>(6, 3, 5, false); modules<uint32_t>(7, 2, 1, false); modules<uint32_t>(8, 2, 11, false); modules<uint32_t>(10, 1, 1, false); }
    for (int n = 1; n <= 3; n++) { matrices<uint32_t>(n, n); matrices<uint32_t>(n, n + 1); }
    matrices<uint64_t>(3, 2); matrices<uint16_t>(3, 2);
    if (T) matrices<uint32_t>(4, 2);
    wide<uint32_t>(4, 0x13, 32); wide<uint64_t>(4, 0x13, 64); wide<uint16_t>(5, 0x25, 16); wide<uint64_t>(5, 0x25, 33);
    wide<uint32_t>(6, 0x43, 31); wide<uint64_t>(6, 0x43, 63);
    if (T) { wide<uint32_t>(6, 0x49, 32); wide<uint64_t>(6, 0x57, 64); wide<uint16_t>(7, 0x83, 16); wide<uint64_t>(7, 0x83, 64); wide<uint32_t>(6, 0x55, 32); }
    windows<uint32_t>(17, 0x20009, 32); windows<uint64_t>(31, 0x80000009u, 64); windows<uint32_t>(33, 0x200002001ull, 20);
    windows<uint64_t>(60, 0x1000000000000003ull, 64); windows<uint16_t>(31, 0x80000009u, 16);
    windows<uint32_t>(24, 0x1000087, 7);
    if (T) { windows<uint32_t>(63, 0x8000000000000003ull, 32); windows<uint64_t>(47, 0x800000000021ull, 64); windows<uint16_t>(63, 0x8000000000000003ull, 16); windows<uint32_t>(48, 0x1000000000003ull, 32); }
}
