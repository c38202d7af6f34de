// C06: annihilation, characteristic polynomial and component equidistribution of reducible generators.
#include "mc.hpp"
#include "gens.hpp"
#include "red.hpp"
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

template<class V> static string show(const V& v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + to_string(v[i]); return s; }
template<class U> static uint64_t apply(const gen::Spec<U>& s, uint64_t p, uint64_t x) {
    uint64_t r = 0;
    for (; p; p >>= 1) { if (p & 1) r ^= x; x = s.step(x); }
    return r;
}
template<class U> static vector<uint8_t> bits(const gen::Spec<U>& s, uint64_t x, int b, int len) {
    const int w = int(sizeof(U) * 8);
    vector<uint8_t> r;
    for (int i = 0; i < len; i++) {
        U o;
        if (s.before) { o = s.out(x); x = s.step(x); } else { x = s.step(x); o = s.out(x); }
        r.push_back(o >> (w - 1 - b) & 1);
    }
    return r;
}
static uint64_t lcm64(uint64_t a, uint64_t b) { return orc::mul64(orc::div64(a, orc::gcd64(a, b)), b); }

template<class U> static void ann(const gen::Spec<U>& s, uint64_t x0, uint64_t p) {
    mc::state(); mc::trans(orc::deg64(p) + 1); mc::trace();
    uint64_t want = apply(s, p, x0);
    if (want != 0 && p != 1) mc::nontrivial();
    mc::guarded("annihilate", [&] {
        gen::Red<U> g(s, x0);
        annihilate<U>(&g, orc::to_ntl(p));
        mc::eq("annihilate", want, g.x, "state after applying " + orc::str64(p));
        mc::eq("leak", 1L, gen::Red<U>::live, "generators alive");
    });
}
static void annihilation() {
    bool T = mc::g.thorough;
    for (int n = 1; n <= 3; n++)
        for (uint64_t m = 0; m < (uint64_t(1) << (n * n)); m++) for (uint64_t x0 = 0; x0 < (uint64_t(1) << n); x0++) {
            if (!mc::begin("annihilate", n, m, x0)) continue;
            gen::Spec<uint32_t> s;
            s.n = s.declared = n; s.before = m & 1;
            for (int j = 0; j < n; j++) { s.t[j] = m >> (j * n) & ((1u << n) - 1); s.o[j] = uint32_t(1) << j; }
            for (uint64_t p = 0; p < (T ? 256 : 64); p++) ann(s, x0, p);
        }
    int n = T ? 8 : 6;
    for (uint64_t m = uint64_t(1) << n; m < (uint64_t(2) << n); m++) for (uint64_t x0 = 1; x0 < 4; x0++) {
        if (!mc::begin("annihilate-module", n, m, x0)) continue;
        gen::Spec<uint64_t> s;
        gen::companion(s, m);
        for (int j = 0; j < n; j++) s.o[j] = uint64_t(1) << j;
        for (uint64_t p = 0; p < (uint64_t(4) << n); p++) ann(s, x0, p);
    }
    // large polynomials: every x^i, x^i + x^j on a long register
    gen::Spec<uint64_t> s;
    gen::companion(s, 0x8000000000000003ull);
    for (int j = 0; j < s.n; j++) s.o[j] = uint64_t(1) << j;
    vector<uint64_t> pw;
    uint64_t x = 0x123456789;
    for (int i = 0; i <= 1100; i++) { pw.push_back(x); x = s.step(x); }
    for (int i = 0; i <= 1100; i++) {
        if (!mc::begin("annihilate-large", i)) continue;
        for (int j = 0; j <= i; j += (i < 200 ? 1 : 37)) {
            NTL::GF2X p; SetCoeff(p, i); if (j < i) SetCoeff(p, j);
            gen::Red<uint64_t> g(s, pw[0]);
            annihilate<uint64_t>(&g, p);
            mc::trace(); mc::trans(i);
            if (!mc::eq("annihilate", j < i ? pw[i] ^ pw[j] : pw[i], g.x, "state after applying x^" + to_string(i) + "+x^" + to_string(j))) break;
        }
    }
}
template<class U> static void charpoly_case(const gen::Spec<U>& s, uint64_t x0, const vector<uint64_t>& given) {
    const int w = int(sizeof(U) * 8);
    uint64_t l = 1;
    for (int b = 0; b < w; b++) {
        uint64_t m = orc::to_u64(orc::minpoly_seq(bits(s, x0, b, 2 * s.n + 2)));
        l = lcm64(l, m);
    }
    mc::state();
    if (orc::deg64(l) > 1) mc::nontrivial();
    for (uint64_t p0 : given) {
        uint64_t want = lcm64(l, p0);
        mc::guarded("charpoly", [&] {
            mc::Quiet q;
            gen::Red<U> g(s, x0);
            NTL::GF2X poly = orc::to_ntl(p0);
            calcCharacteristicPolynomial<U>(static_cast<ReducibleGenerator<U>*>(&g), poly);
            mc::trace();
            if (orc::str(poly) != orc::str64(want)) mc::fail("charpoly", "characteristic polynomial from " + orc::str64(p0) + " expected " + orc::str64(want) + " got " + orc::str(poly));
            if (mc::want_sample() && p0 == 1 && orc::deg64(want) > 2) mc::sample(mc::describe() + ": " + orc::str(poly));
        });
    }
}
template<class U> static void charpolys() {
    const int w = int(sizeof(U) * 8);
    bool T = mc::g.thorough;
    // cyclic module generated by 1; the outputs are functionals killing all but a submodule
    int N = T ? 7 : 6;
    for (int n = 2; n <= N; n++)
        for (uint64_t m = (uint64_t(1) << n) | 1; m < (uint64_t(2) << n); m += 2) {
            vector<uint64_t> divs;
            for (uint64_t d = 1; d <= m; d++) if (orc::mod64(m, d) == 0) divs.push_back(d);
            // observe only components: bit b observes the functional "top coefficient of d*x mod m"
            for (uint64_t a : divs) for (uint64_t c : divs) {
                if (!mc::begin("charpoly", n, m, a, c, w)) continue;
                for (int pos = 0; pos < (n <= 4 ? w : 3); pos++) {
                    int p1 = n <= 4 ? pos : (pos == 0 ? 0 : pos == 1 ? w / 2 : w - 1);
                    int p2 = (p1 * 7 + 3) % w;
                    gen::Spec<U> s;
                    gen::companion(s, m);
                    for (int j = 0; j < n; j++) {
                        uint64_t ea = orc::mod64(orc::mul64(a, uint64_t(1) << j), m), ec = orc::mod64(orc::mul64(c, uint64_t(1) << j), m);
                        if (ea >> (n - 1) & 1) s.o[j] = U(s.o[j] | (U(1) << p1));
                        if (ec >> (n - 1) & 1) s.o[j] = U(s.o[j] | (U(1) << p2));
                    }
                    charpoly_case<U>(s, 1, pos == 0 ? divs : vector<uint64_t>(1, 1));
                }
            }
        }
}
template<class U> static void matrices() {
    int n = 3;
    for (uint64_t m = 0; m < (uint64_t(1) << (n * n)); m++) for (uint64_t x0 = 0; x0 < 8; x0++) {
        vector<uint64_t> col{ m & 7, m >> 3 & 7, m >> 6 & 7 };
        if (orc::rank64(col) < 3) continue;             // invertible transitions only
        if (!mc::begin("charpoly-matrix", n, m, x0)) continue;
        for (int sh = 0; sh < 3; sh++) {
            gen::Spec<U> s;
            s.n = s.declared = n; s.before = m >> 3 & 1;
            for (int j = 0; j < n; j++) { s.t[j] = m >> (j * n) & 7; s.o[j] = U(U(1) << ((j * 5 + sh) % (sizeof(U) * 8))); }
            if (sh == 2) s.o[0] = 0;
            charpoly_case<U>(s, x0, vector<uint64_t>(1, 1));
        }
    }
}
// component of the irreducible f in F[t]/(f q), q coprime to f, both invertible; every output map
template<class U> static void component(uint64_t f, uint64_t q, int v, uint64_t stride, uint64_t gstate) {
    const int w = int(sizeof(U) * 8);
    uint64_t m = orc::mul64(f, q);
    int n = orc::deg64(m), df = orc::deg64(f);
    uint64_t total = uint64_t(1) << (n * v);
    if (n * v >= 40) total = uint64_t(1) << 40;
    for (uint64_t c = 0; c < total; c += stride) {
        if (!mc::begin("component", f, q, v, c, gstate, w)) continue;
        gen::Spec<U> s;
        gen::companion(s, m);
        for (int j = 0; j < n; j++) {
            U o = 0;
            for (int b = 0; b < v; b++) if (c >> (b * n + j) & 1) o = U(o | (U(1) << (w - 1 - b)));
            s.o[j] = o;
        }
        uint64_t xf = apply(s, q, gstate);
        mc::state();
        vector<U> o;
        uint64_t x = xf;
        for (int i = 0; i < 2 * n + 2; i++) { x = s.step(x); o.push_back(s.out(x)); }
        bool seen = false;
        for (auto y : o) if (y) seen = true;
        if (!seen) { mc::count("factor_not_observable"); continue; }
        vector<int> want(v);
        int sum = 0;
        for (int i = 1; i <= v; i++) { want[i - 1] = gen::stream_kv<U>(o, df, i); sum += df / i - want[i - 1]; }
        mc::nontrivial();
        mc::outcome("k", show(want));
        mc::guarded("component", [&] {
            mc::Quiet quiet;
            gen::Red<U> g(s, gstate);
            NTL::GF2X F = orc::to_ntl(f);
            vector<int> veq(v);
            int got;
            { AlgorithmReducibleEquidistribution<U, gen::Red<U> > a(g, F, v, df); got = a.get_all_equidist(&veq[0]); }
            if (veq != want) mc::fail("component-kv", "k(1.." + to_string(v) + ") of the component expected " + show(want) + " got " + show(veq));
            else mc::eq("component-sum", sum, got, "total defect of the component");
            int rest = -1, k;
            { AlgorithmReducibleEquidistribution<U, gen::Red<U> > a(g, F, v, df); k = a.get_equidist(&rest); }
            mc::eq("component-kv1", want[v - 1], k, "k(v) of the component");
            mc::eq("component-sum1", sum - (df / v - want[v - 1]), rest, "gaps below");
            mc::eq("component-untouched", gstate, g.x, "caller's generator state");
            mc::trace(); mc::trans(2 * v);
        });
    }
}
// LCM helper on every pair
static void lcms() {
    int N = mc::g.thorough ? 256 : 128;
    for (int a = 1; a < N; a++) {
        if (!mc::begin("lcm", a)) continue;
        for (int b = 1; b < N; b++) {
            NTL::GF2X A = orc::to_ntl(a), B = orc::to_ntl(b), R;
            string want = orc::str64(lcm64(a, b));
            LCM(R, A, B);
            mc::trace(); mc::state();
            if (orc::str(R) != want || orc::str(A) != orc::str64(a) || orc::str(B) != orc::str64(b)) { mc::fail("lcm", "lcm of " + orc::str64(a) + " and " + orc::str64(b) + " got " + orc::str(R)); break; }
            LCM(A, A, B);
            if (orc::str(A) != want) { mc::fail("lcm", "lcm into its first argument, of " + orc::str64(a) + " and " + orc::str64(b)); break; }
            A = orc::to_ntl(a);
            LCM(B, A, B);
            if (orc::str(B) != want) { mc::fail("lcm", "lcm into its second argument, of " + orc::str64(a) + " and " + orc::str64(b)); break; }
        }
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    annihilation();
    lcms();
    charpolys<uint32_t>(); charpolys<uint16_t>(); charpolys<uint64_t>();
    matrices<uint32_t>(); matrices<uint64_t>();
    vector<uint32_t> sp = orc::sieve(10);
    int top = T ? 7 : 6;
    for (uint64_t f = 3; f < (uint64_t(2) << top); f++) {
        bool irr = true;
        for (uint64_t d = 2; d < f; d++) if (orc::mod64(f, d) == 0) { irr = false; break; }
        int df = orc::deg64(f);
        if (!irr || !(f & 1) || df < 2) continue;
        for (uint64_t q = 3; q < 32; q += 2) {
            if (orc::gcd64(f, q) != 1) continue;
            int n = df + orc::deg64(q);
            for (int v = 1; v <= 3; v++) {
                int b = n * v;
                uint64_t stride = b <= 9 ? 1 : (((uint64_t(1) << b) / (T ? 2000 : 200)) | 1);
                component<uint32_t>(f, q, v, stride, 1);
                if (v == 2) component<uint64_t>(f, q, v, stride | 1, 3);
                if (v == 3) component<uint16_t>(f, q, v, stride | 1, 1);
            }
        }
    }
}
