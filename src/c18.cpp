// C18: equidistribution of SIMD generators at element granularity, against the definition on the
// stream of elements, for synthetic machines and for real SFMT / dSFMT objects.
#include "samples.hpp"
#include "gens.hpp"
#include <NTL/GF2XFactoring.h>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#if defined(GEN_SFMT)
#include "AlgorithmSIMDEquidistribution.hpp"
typedef MTToolBox::sfmt Real;
#else
#include "AlgorithmDSFMTEquidistribution.hpp"
typedef MTToolBox::dSFMT Real;
#endif
using namespace MTToolBox; using namespace NTL;
using std::vector; using std::string; using std::to_string;
typedef smp::Row Row;

// how elements are read off a word: N of them, each `bits` wide, most significant bit at `top`
struct Grain { int N, width, top; bool lsb; };
static int bitof(const w128_t& w, const Grain& g, int e, int b) {
    int pos = g.lsb ? b : g.top - b;
    return g.width == 32 ? int(w.u[e] >> pos & 1) : int(w.u64[e] >> pos & 1);
}
// the definition: the longest run of elements from position p of a word that takes every value of its
// top v bits over all the states reached.  d states span them all.
static int kdef(const vector<w128_t>& o, const Grain& g, int p, int d, int v) {
    orc::Echelon e; const int words = (d + 63) / 64;
    for (int k = 0;; k++) {
        if ((k + 1) * v > d) return k;
        for (int b = 0; b < v; b++) {
            Row row(words, 0);
            int el = (p + k) % g.N, bl = (p + k) / g.N;
            for (int i = 0; i < d; i++) if (bitof(o[i + bl], g, el, b)) row[i >> 6] |= uint64_t(1) << (i & 63);
            if (!e.add(row)) return k;
        }
    }
}
static vector<int> kdef_all(const vector<w128_t>& o, const Grain& g, int d, int maxv) {
    vector<int> r(maxv);
    for (int v = 1; v <= maxv; v++) {
        int m = 1 << 30;
        for (int p = 0; p < g.N; p++) m = std::min(m, kdef(o, g, p, d, v));
        r[v - 1] = m;
    }
    return r;
}
// the dimension of the span of the states reached, from the outputs
static int dimension(const vector<w128_t>& o, int n) {
    orc::Echelon e; int d = 0;
    for (int i = 0; i < n + 1; i++) {
        Row row; for (int j = 0; j < n + 2; j++) { row.push_back(o[i + j].u64[0]); row.push_back(o[i + j].u64[1]); }
        if (e.add(row)) d++; else break;
    }
    return d;
}
template<class G> static bool verify(const G& g, const vector<w128_t>& o, const Grain& gr, int d, int maxv, const string& what) {
    vector<int> want = kdef_all(o, gr, d, maxv), got(maxv + 1, -77);
    int sum = 0, wsum = 0;
    for (int v = 1; v <= maxv; v++) wsum += d / v - want[v - 1];
    bool ok = true;
    if (!mc::guarded("calc-throw", [&] {
        mc::Quiet q;
#if defined(GEN_SFMT)
        SIMDInfo info; info.bitMode = gr.width; info.elementNo = gr.N; info.bitSize = 128;
        sum = calc_SIMD_equidistribution<w128_t, G>(g, got.data(), maxv, info, d, gr.lsb);
#else
        DSFMTInfo info; info.bitSize = 128; info.elementNo = 2;
        sum = calc_dSFMT_equidistribution<w128_t, G>(g, got.data(), maxv, info, d);
#endif
    })) return false;
    for (int v = 1; v <= maxv && ok; v++) if (got[v - 1] != want[v - 1]) {
        mc::fail("k(v)", what + ": k(" + to_string(v) + ") of " + to_string(gr.N) + " elements" + (gr.lsb ? " from the LSB" : "") + " reported " + to_string(got[v - 1]) + ", is " + to_string(want[v - 1]) + ", dimension " + to_string(d));
        ok = false;
    }
    if (got[maxv] != -77) { mc::fail("overrun", what + ": wrote past the " + to_string(maxv) + " entries"); ok = false; }
    if (ok && sum != wsum) { mc::fail("sum", what + ": total defect " + to_string(sum) + ", is " + to_string(wsum)); ok = false; }
    for (int v = 0; v < maxv; v++) if (want[v] % gr.N) { mc::count("k not a whole number of words"); mc::nontrivial(); }
    mc::trans(maxv); mc::count("k values", maxv);
    return ok;
}

#include "syn.hpp"
static vector<w128_t> stream(const Syn& g, int len) { Syn s(g); vector<w128_t> o; for (int i = 0; i < len; i++) o.push_back(s.generate()); return o; }
#if defined(GEN_SFMT)
static const Grain GR[] = { {4, 32, 31, false}, {4, 32, 31, true}, {2, 64, 63, false}, {2, 64, 63, true} };
#else
static const Grain GR[] = { {2, 52, 51, false} };
#endif
static void clear(Tab& t) { for (int i = 0; i < 64; i++) t.col[i].u64[0] = t.col[i].u64[1] = 0; }
// bit b (from the significant end) of element e shows the functional f (bit i: coefficient of basis vector i)
static void setf(Tab& t, const Grain& g, int e, int b, uint64_t f) {
    int pos = g.lsb ? b : g.top - b;
    for (int i = 0; i < t.n; i++) if (f >> i & 1) { if (g.width == 32) t.col[i].u[e] |= 1u << pos; else t.col[i].u64[e] |= uint64_t(1) << pos; }
}
static uint64_t shiftf(uint64_t f, const Tab& t, int by) {            // the functional f(t^by x)
    for (; by > 0; by--) {
        uint64_t r = 0;
        for (int i = 0; i < t.n; i++) {
            uint64_t c = uint64_t(1) << (i + 1); if (c >> t.n & 1) c ^= t.m;
            if (__builtin_parityll(f & c)) r |= uint64_t(1) << i;
        }
        f = r;
    }
    return f;
}
static bool runsyn(const Tab& t, uint64_t x0, const Grain& g, int maxv) {
    Syn s(t, x0);
    vector<w128_t> o = stream(s, 4 * t.n + 10);
    int d = dimension(o, t.n);
    mc::state();
    if (!d) return true;
    mc::trace();
    return verify(s, o, g, d, maxv, "F2[t]/" + orc::str64(t.m));
}
static void synthetic() {
    bool T = mc::g.thorough;
    // every machine with one visible bit per element
    for (int gi = 0; gi < int(sizeof(GR) / sizeof(GR[0])); gi++) for (int n = 1; n <= (T ? 4 : 3); n++) for (uint64_t m = (1ull << n) | 1; m < (2ull << n); m += 2) {
        const Grain& g = GR[gi];
        for (uint64_t f0 = 0; f0 < (1ull << n); f0++) for (uint64_t f1 = 0; f1 < (1ull << n); f1++) {
            if (!mc::begin("one-bit", gi, n, m, f0, f1)) continue;
            uint64_t rest = g.N == 4 ? 1ull << (2 * n) : 1;
            for (uint64_t r = 0; r < rest; r++) {
                Tab t; t.n = n; t.m = m; clear(t);
                uint64_t f[4] = { f0, f1, r & ((1ull << n) - 1), r >> n };
                for (int e = 0; e < g.N; e++) setf(t, g, e, 0, f[e]);
                if (!runsyn(t, 1, g, 2)) break;
            }
        }
    }
    // wider elements: the bits show f, f t^c, f t^2c, ...; the elements f, f t^a, ... (or with a twist)
    for (int gi = 0; gi < int(sizeof(GR) / sizeof(GR[0])); gi++) for (int n : T ? vector<int>{ 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 20, 23, 24, 29, 31 } : vector<int>{ 5, 7, 8, 11, 13, 17, 23 }) {
        vector<uint64_t> ms;
        for (uint64_t m = (1ull << n) | 1; m < (2ull << n) && ms.size() < (n < 8 ? 8 : 3); m += 2) { GF2X p = orc::to_ntl(m); if (n < 8 ? true : IterIrredTest(p) || ms.size() == 1) ms.push_back(m); }
        for (uint64_t m : ms) for (int a = 0; a < (T ? n : std::min(n, 9)); a++) for (int c = 1; c < (T ? n : std::min(n, 8)); c++) {
            if (!mc::begin("wide", gi, n, m, a, c)) continue;
            const Grain& g = GR[gi];
            for (int tw = 0; tw < 3; tw++) {
                Tab t; t.n = n; t.m = m; clear(t);
                int W = std::min(n + 1, 32);
                for (int e = 0; e < g.N; e++) for (int b = 0; b < W; b++) {
                    uint64_t f = shiftf(uint64_t(1) << (n - 1), t, a * e + c * b + (tw == 1 ? e * e * b : 0));
                    if (tw == 2 && e == g.N - 1 && b > 1) f = 0;
                    setf(t, g, e, b, f);
                }
                if (!runsyn(t, 1, g, W) || !runsyn(t, 3 % (1ull << n), g, W)) break;
            }
        }
    }
}
// ---- real objects
static Real *shifted_sum(const Real& g, const GF2X& p) {             // p(transition) applied to the state
    Real *r = new Real(g), w(g); r->setZero();
    for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) { Real c(w); r->add(static_cast<EquidistributionCalculatable<w128_t>&>(c)); } w.generate(); }
    return r;
}
static GF2X minimal(const Real& g, int n) {
    Real w(g); vector<w128_t> o; for (int i = 0; i < 2 * n + 2; i++) o.push_back(w.generate());
    GF2X l; SetCoeff(l, 0);
    for (int b = 0; b < 128; b++) {
        Vec<GF2> v; v.SetLength(2 * n);
        for (int i = 0; i < 2 * n; i++) v[i] = long(o[i].u64[b / 64] >> (b % 64) & 1);
        GF2X m; MinPolySeq(m, v, n);
        l = l * (m / GCD(l, m));
        if (deg(l) == n) break;
    }
    return l;
}
static void real_case(const Real& g, int n, const GF2X& h, const string& what) {   // h: the polynomial of the component kept
    vector<w128_t> o; { Real w(g); for (int i = 0; i < 2 * n + 60; i++) o.push_back(w.generate()); }
    int d = int(deg(h));
    if (dimension(o, d) != d) { mc::count("skipped: not of the degree"); return; }
    mc::state(); mc::trace();
    Real keep(g);
    for (const Grain& gr : GR) if (!verify(g, o, gr, d, gr.width, what)) return;
#if defined(GEN_SFMT)
    for (int lsb = 0; lsb < 2; lsb++) {                                       // whole words
        Grain gr = { 1, 128, 127, lsb != 0 };
        vector<int> want(128), got(128, -1); int ws = 0, s = 0;
        for (int v = 1; v <= 128; v++) {
            orc::Echelon e; const int words = (d + 63) / 64; int k = 0; bool more = true;
            for (; more && (k + 1) * v <= d; k += more) for (int b = 0; b < v && more; b++) {
                Row row(words, 0); int pos = lsb ? b : 127 - b;
                for (int i = 0; i < d; i++) if (o[i + k].u64[pos / 64] >> (pos % 64) & 1) row[i >> 6] |= uint64_t(1) << (i & 63);
                more = e.add(row);
            }
            want[v - 1] = k; ws += d / v - k;
        }
        Real w(g); if (lsb) w.set_reverse_bit();
        if (!mc::guarded("calc-throw", [&] { mc::Quiet q; AlgorithmEquidistribution<w128_t> re(w, 128, d); s = re.get_all_equidist(got.data()); })) return;
        for (int v = 1; v <= 128; v++) if (got[v - 1] != want[v - 1]) { mc::fail("k(v) 128", what + ": k(" + to_string(v) + ") of whole words" + (lsb ? " from the LSB" : "") + " reported " + to_string(got[v - 1]) + ", is " + to_string(want[v - 1])); return; }
        if (s != ws) { mc::fail("sum 128", what + ": total defect of whole words " + to_string(s) + ", is " + to_string(ws)); return; }
        mc::trans(128); mc::count("k values", 128);
    }
#endif
    Real a(g); for (int i = 0; i < 5; i++) { w128_t x = a.generate(), y = keep.generate(); if (x.u64[0] != y.u64[0] || x.u64[1] != y.u64[1]) { mc::fail("disturbed", what + ": the generator was changed"); return; } }
}
static void reals() {
    bool T = mc::g.thorough;
    vector<smp::Conf> cs;
#if defined(GEN_SFMT)
    for (int t = 0; t < (T ? 24 : 6); t++) {
        smp::Conf f; f.name = "sfmt"; f.p = { uint64_t(t % 2 ? 300 : 200), 1, uint64_t(1 + (t * 7) % 31), uint64_t(1 + 2 * (t % 4)), uint64_t(1 + (t * 11) % 31), uint64_t(1 + 2 * (t / 2 % 4)) };
        for (int i = 0; i < 4; i++) f.p.push_back(uint32_t(smp::mixk(3900 + 4 * t + i) | smp::mixk(3950 + 4 * t + i)));
        cs.push_back(f);
    }
#else
    const uint64_t m52 = (uint64_t(1) << 52) - 1;
    for (int t = 0; t < (T ? 24 : 8); t++) cs.push_back({"dsfmt", {uint64_t(t % 2 ? 340 : 240), 1, uint64_t(1 + (t * 13) % 51), (smp::mixk(7700 + t) | smp::mixk(7720 + t)) & m52, (smp::mixk(7740 + t) | smp::mixk(7760 + t)) & m52}});
#endif
    int fixed = int(cs.size());
    for (auto& c : smp::confs(T)) cs.push_back(c);
    for (size_t ci = 0; ci < cs.size(); ci++) {
        const smp::Conf& c = cs[ci];
        std::unique_ptr<Real> g(smp::make(c));
        int n = g->bitSize();
        GF2X m;
        Vec<Pair<GF2X, long> > fs;
        bool have = false;
        for (int part = 0; part < 14; part++) {
            if (!mc::begin("real", int(ci), part)) continue;
            mc::text(smp::join(c.p));
            if (!have) { m = minimal(*g, n); Vec<Pair<GF2X, long> > all; CanZass(all, m); fs = all; have = true; }
            // the part-th kept component: each simple factor, then products of two, then the whole
            vector<int> simple; for (long i = 0; i < fs.length(); i++) if (fs[i].b == 1 && IsOne(coeff(fs[i].a, 0)) && deg(fs[i].a) > 1) simple.push_back(int(i));
            int S = int(simple.size()); GF2X h; SetCoeff(h, 0);
            if (part < S) h = fs[simple[part]].a;
            else if (part < 2 * S - 1) h = fs[simple[part - S]].a * fs[simple[part - S + 1]].a;
            else if (part == 13 && IsOne(coeff(m, 0))) h = m;
            else { mc::count("no such component"); continue; }
            if (deg(h) > (T ? 1400 : 520)) { mc::count("skipped: large component"); continue; }
            std::unique_ptr<Real> s(shifted_sum(*g, m / h));
            real_case(*s, n, h, "parameters " + smp::join(c.p) + ", component of degree " + to_string(deg(h)));
            if (mc::want_sample()) mc::sample("parameters " + smp::join(c.p) + ", component of degree " + to_string(deg(h)));
        }
    }
    (void)fixed;
}
void mc_main() { synthetic(); reals(); }
