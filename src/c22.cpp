// C22: period certification of SFMT and dSFMT over parity and check words; the dSFMT fixed point against
// an explicit affine model.
#include "samples.hpp"
#if defined(GEN_DSFMT)
#include "affine.hpp"
#endif
#include <NTL/GF2XFactoring.h>
#if defined(GEN_SFMT)
typedef MTToolBox::sfmt Real;
#else
#include "Annihilate.h"
#include "calc_fixpoint.h"
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
typedef MTToolBox::dSFMT Real;
#endif
using namespace MTToolBox; using namespace NTL;
using std::vector; using std::string; using std::to_string;
typedef smp::Row Row;
struct W { uint64_t a[2]; };
static W mk(uint64_t lo, uint64_t hi) { W w; w.a[0] = lo; w.a[1] = hi; return w; }
static W bit(int i) { W w = mk(0, 0); w.a[i / 64] = uint64_t(1) << (i % 64); return w; }
static W operator^(W x, const W& y) { x.a[0] ^= y.a[0]; x.a[1] ^= y.a[1]; return x; }
static W get(const Real& g) { w128_t v = g.getParityValue(); return mk(v.u64[0], v.u64[1]); }
static int inner(const W& x, const W& y) { return __builtin_parityll(x.a[0] & y.a[0]) ^ __builtin_parityll(x.a[1] & y.a[1]); }
static string hx(const W& w) { return mc::hex(w.a[1]) + ":" + mc::hex(w.a[0]); }
static smp::Conf conf(int which) { auto c = smp::confs(false); return c[which % c.size()]; }
#if defined(GEN_SFMT)
static const int CHECKBIT = 0;
static int nbits(const smp::Conf& c) { return 64 * smp::nwords(c); }
static sfmt_param par(const smp::Conf& c, const W& p, const W&) {
    sfmt_param q = smp::param(c);
    q.parity1 = uint32_t(p.a[0]); q.parity2 = uint32_t(p.a[0] >> 32); q.parity3 = uint32_t(p.a[1]); q.parity4 = uint32_t(p.a[1] >> 32);
    return q;
}
#else
static int nbits(const smp::Conf& c) { return 52 * (smp::nwords(c) - 2) + 128; }
static dSFMT_param par(const smp::Conf& c, const W& p, const W& f) {
    dSFMT_param q = smp::param(c);
    q.parity1 = p.a[0]; q.parity2 = p.a[1]; q.fix1 = f.a[0]; q.fix2 = f.a[1];
    return q;
}
#endif
static Real *one(const smp::Conf& c, int b) { Real *g = new Real(smp::param(c)); g->setOneBit(b); return g; }
static void toggle(Real& g, const smp::Conf& c, const W& w) {             // flip bits of the check word
#if defined(GEN_SFMT)
    int base = 0;
#else
    int base = nbits(c) - 128;
#endif
    static vector<std::unique_ptr<Real>> ones; static string whose;
    if (whose != smp::join(c.p)) { ones.clear(); for (int b = 0; b < 128; b++) ones.emplace_back(one(c, base + b)); whose = smp::join(c.p); }
    for (int b = 0; b < 128; b++) if (w.a[b / 64] >> (b % 64) & 1) { Real t(*ones[b]); g.add(static_cast<EquidistributionCalculatable<w128_t>&>(t)); }
}
static vector<W> words(int level) {
    vector<W> w;
    w.push_back(mk(0, 0)); w.push_back(mk(~0ull, ~0ull));
    for (int i = 0; i < 128; i += level ? 1 : 13) w.push_back(bit(i));
    for (int i = 0; i < (level ? 16 : 5); i++) w.push_back(mk(smp::mixk(2 * i), smp::mixk(2 * i + 1)));
    return w;
}
// certify one state; fixed: the fixed point is to be used
static bool certify(const smp::Conf& c, const W& parity, const W& word, const W& fix, bool nofix, bool deep) {
    std::unique_ptr<Real> g(new Real(par(c, parity, fix)));
    smp::seedk(*g, 5); toggle(*g, c, get(*g) ^ word);
    if (hx(get(*g)) != hx(word)) { mc::fail("setup", "could not set the check word"); return false; }
    Real before(*g);
    W seen = nofix ? word : word ^ fix;
    int want = inner(seen, parity), got;
    auto cert = [&](Real& x) {
#if defined(GEN_SFMT)
        return x.periodCertification();
#else
        return x.periodCertification(nofix);
#endif
    };
    string at = "parity " + hx(parity) + ", check word " + hx(word) + (nofix ? "" : ", fixed point " + hx(fix));
    got = cert(*g);
    mc::trans(); mc::state();
    W after = get(*g);
    int K = smp::nwords(c) / 2 + 2;
    if (want == 1) {
        mc::count("accepted");
        if (got != 1) { mc::fail("rejected", at + ": a right state was not accepted"); return false; }
        if (hx(after) != hx(word)) { mc::fail("changed", at + ": an accepted state was changed"); return false; }
        if (deep && smp::window(*g, K) != smp::window(before, K)) { mc::fail("changed", at + ": an accepted state was changed elsewhere"); return false; }
        return true;
    }
    mc::count("corrected"); mc::nontrivial();
    if (got != 0) { mc::fail("accepted", at + ": a wrong state was accepted (" + to_string(got) + ")"); return false; }
    W d = after ^ word;
    int flips = __builtin_popcountll(d.a[0]) + __builtin_popcountll(d.a[1]);
    if (flips != 1) { mc::fail("flips", at + ": " + to_string(flips) + " bits of the check word flipped"); return false; }
    // the one the published generators flip
    W pub = mk(0, 0);
#if defined(GEN_SFMT)
    if (parity.a[0]) pub.a[0] = parity.a[0] & -parity.a[0]; else pub.a[1] = parity.a[1] & -parity.a[1];
#else
    if (parity.a[1]) pub.a[1] = parity.a[1] & -parity.a[1]; else pub.a[0] = parity.a[0] & -parity.a[0];
#endif
    if (hx(d) != hx(pub)) { mc::fail("which", at + ": the bit flipped is " + hx(d) + ", the published generators flip " + hx(pub)); return false; }
    if (deep) {
        toggle(before, c, d);
        if (smp::window(*g, K) != smp::window(before, K)) { mc::fail("flips", at + ": more than one bit of the state flipped"); return false; }
    }
    Real again(*g);
    got = cert(again);
    if (got != 1) { mc::fail("second", at + ": the corrected state is not accepted"); return false; }
    if (hx(get(again)) != hx(after)) { mc::fail("second", at + ": the second certification changed the state"); return false; }
    return true;
}
static void certification() {
    bool T = mc::g.thorough;
    vector<W> fixes; fixes.push_back(mk(0, 0));
#if defined(GEN_DSFMT)
    fixes.push_back(mk(0x90014964b32f4329ull, 0x3b8d12ac548a7c7aull)); fixes.push_back(bit(0)); fixes.push_back(bit(127)); fixes.push_back(mk(~0ull, 1));
#endif
    for (int ci = 0; ci < (T ? 4 : 2); ci++) {
        smp::Conf c = conf(ci);
        for (int i = 0; i < 128; i++) {
            if (!mc::begin("single", ci, i)) continue;
            W p = bit(i); bool ok = true;
            for (auto& f : fixes) for (int nf = 0; nf < (fixes.size() > 1 ? 2 : 1) && ok; nf++) { for (auto& w : words(1)) if (!(ok = certify(c, p, w, f, nf || fixes.size() == 1, true))) break; if (!ok) break; }
        }
        for (int i = 0; i < 128; i++) for (int j = i + 1; j < 128; j++) {
            if (!mc::begin("pair", ci, i, j)) continue;
            W p = bit(i) ^ bit(j); bool ok = true;
            vector<W> ws = words(T ? 1 : 0); ws.push_back(bit(i)); ws.push_back(bit(j)); ws.push_back(p); ws.push_back(p ^ mk(~0ull, ~0ull));
            const W& f = fixes[(i + j) % fixes.size()];
            for (auto& w : ws) if (ok) ok = certify(c, p, w, f, fixes.size() == 1 || (i & 1), j == i + 1);
        }
        for (int k = 0; k < (T ? 400 : 80); k++) {
            if (!mc::begin("dense", ci, k)) continue;
            W p = mk(smp::mixk(5000 + 2 * k), smp::mixk(5001 + 2 * k));
            int z = k % 10; if (z < 8) { int lo = z * 16; for (int b = 0; b < lo; b++) p.a[b / 64] &= ~(1ull << (b % 64)); }    // lowest bit anywhere
            if (k % 7 == 0) p.a[0] = 0;
            if (k % 11 == 0) p.a[1] = 0;
            if (k % 13 == 0) p.a[0] &= ~1ull;
            if (!p.a[0] && !p.a[1]) p = bit(k % 128);
            bool ok = true;
            vector<W> ws = words(1); ws.push_back(p); ws.push_back(p ^ mk(~0ull, ~0ull));
            for (auto& f : fixes) for (int nf = 0; nf < (fixes.size() > 1 ? 2 : 1) && ok; nf++) for (auto& w : ws) if (ok) ok = certify(c, p, w, f, nf || fixes.size() == 1, true);
        }
    }
}
// the sizes the programs are made for
static void largest() {
    vector<int> ms = {4253, 19937, 44497}; if (mc::g.thorough) { ms.push_back(86243); ms.push_back(216091); }
    for (int m : ms) for (int k = 0; k < 24; k++) {
        if (!mc::begin("large", m, k)) continue;
#if defined(GEN_SFMT)
        smp::Conf c = {"sfmt", {uint64_t(m), uint64_t(1 + k), 18, 1, 11, 1, 0xdfffffef, 0xddfecb7f, 0xbffaffff, 0xbffffff6}};
#else
        smp::Conf c = {"dsfmt", {uint64_t(m), uint64_t(1 + k), 19, 0x000ffafffffffb3full, 0x000ffdfffc90fffdull}};
#endif
        W p = k < 8 ? bit(16 * k + m % 16) : mk(smp::mixk(m + k), smp::mixk(m + k + 99)), f = mk(smp::mixk(k), smp::mixk(k + 1));
        if (k % 3 == 0) p.a[0] &= ~0xffffffffull; if (!p.a[0] && !p.a[1]) p = bit(127);
        bool ok = true;
        for (auto& w : words(0)) for (int nf = 0; nf < 2 && ok; nf++) {
#if defined(GEN_SFMT)
            if (nf == 0) continue;
#endif
            ok = certify(c, p, w, f, nf, true);
        }
    }
}
#if defined(GEN_DSFMT)
static bool check_fix(const smp::Conf& c, const smp::Model& M, const Real& g, const GF2X& irr, const GF2X& quo, const GF2X& all, const string& what) {
    // the only point of the component kept by irr that the affine recurrence reproduces
    GF2X one, t1; SetCoeff(one, 0); SetCoeff(t1, 0); SetCoeff(t1, 1);
    GF2X e = all * InvMod(all % irr, irr), h = InvMod(t1 % irr, irr);
    Row C = M.constant(), eC = M.apply(e, C), f = M.apply(h, eC);
    Row chk = M.step(f); smp::xorto(chk, eC); smp::xorto(chk, f);
    if (!smp::zero(chk)) { mc::fail("model", what + ": the model's point is not fixed"); return false; }
    chk = M.apply(irr, f);
    if (!smp::zero(chk)) { mc::fail("model", what + ": the model's point is outside the component"); return false; }
    Real keep(g);
    w128_t r; bool thrown = false; string msg;
    { mc::Quiet q; try { r = calc_fixpoint(g, irr, quo); } catch (std::exception& x) { thrown = true; msg = x.what(); } catch (std::exception *x) { thrown = true; msg = x->what(); } }
    mc::trans(); mc::state(); mc::trace();
    if (thrown) { mc::fail("throw", what + ": " + msg); return false; }
    W want = mk(f[2 * M.n], f[2 * M.n + 1]), got = mk(r.u64[0], r.u64[1]);
    if (hx(want) != hx(got)) { mc::fail("fixpoint", what + ": fixed point " + hx(got) + ", is " + hx(want)); return false; }
    if (want.a[0] || want.a[1]) mc::nontrivial(); else mc::count("zero fixed point");
    Real a(g); if (smp::window(a, 4) != smp::window(keep, 4)) { mc::fail("disturbed", what + ": the generator was changed"); return false; }
    (void)c; return true;
}
// l: what getLCMPoly made of a generator like g
static bool lcm_check(const smp::Conf& c, const smp::Model& M, const Real& g, const GF2X& l, const GF2X& m, const Vec<Pair<GF2X, long> >& fs, const string& base) {
    if (!smp::zero(M.apply(l, M.constant()))) { mc::fail("lcm", base + ": the polynomial of getLCMPoly (degree " + to_string(deg(l)) + ", the minimal polynomial has " + to_string(deg(m)) + ") does not annihilate the constant"); return false; }
    Real sum(g), w(g); sum.setZero();
    for (long i = 0; i <= deg(l); i++) { if (IsOne(coeff(l, i))) { Real t(w); sum.add(static_cast<EquidistributionCalculatable<w128_t>&>(t)); } w.generate(); }
    if (!smp::zero(smp::window(sum, 2 * M.n + 8))) { mc::fail("lcm", base + ": the polynomial of getLCMPoly does not annihilate the state"); return false; }
    for (long i = 0; i < fs.length(); i++) {
        if (fs[i].b != 1 || deg(fs[i].a) < 2 || !IsZero(l % fs[i].a)) continue;
        if (!check_fix(c, M, g, fs[i].a, l / fs[i].a, m / fs[i].a, base + ", component of degree " + to_string(deg(fs[i].a)) + ", polynomial of getLCMPoly")) return false;
    }
    return true;
}
static void fixpoints() {
    bool T = mc::g.thorough;
    vector<smp::Conf> cs;
    const uint64_t m52 = (uint64_t(1) << 52) - 1;
    for (int t = 0; t < (T ? 200 : 40); t++) cs.push_back({"dsfmt", {uint64_t(t % 3 == 0 ? 240 : t % 3 == 1 ? 340 : 440), uint64_t(t % 3 == 2 && t % 2 ? 2 : 1), uint64_t(1 + (t * 13) % 51), (smp::mixk(8700 + t) | smp::mixk(8720 + t)) & m52, (smp::mixk(8740 + t) | smp::mixk(8760 + t)) & m52}});
    for (auto& c : smp::confs(T)) cs.push_back(c);
    for (size_t ci = 0; ci < cs.size(); ci++) {
        const smp::Conf& c = cs[ci];
        if (!mc::begin("fixpoint", int(ci))) continue;
        mc::text(smp::join(c.p));
        smp::Model M(c); std::unique_ptr<Real> g(smp::make(c));
        GF2X m = M.minimal(); Vec<Pair<GF2X, long> > fs; CanZass(fs, m);
        string base = "parameters " + smp::join(c.p);
        for (long i = 0; i < fs.length(); i++) {
            if (fs[i].b != 1 || deg(fs[i].a) < 2) continue;
            if (!check_fix(c, M, *g, fs[i].a, m / fs[i].a, m / fs[i].a, base + ", component of degree " + to_string(deg(fs[i].a)))) break;
            mc::count("components");
        }
        // the polynomial the programs use in place of m kills the state and the constant, and gives the same points
        GF2X l; Real at(*g); { mc::Quiet q; Real t(*g); minpoly<w128_t>(l, t); Real u(*g); getLCMPoly(l, u); }
        if (!lcm_check(c, M, at, l, m, fs, base)) continue;
        if (mc::want_sample()) mc::sample(base + ", minimal polynomial of degree " + to_string(deg(m)));
    }
}
// parameters as the program creates them, from the first seeds
static void created() {
    for (int sd = 1; sd <= (mc::g.thorough ? 1600 : 24); sd++) {
        if (!mc::begin("created", sd)) continue;
        MersenneTwister64 mt(sd); Real g(521); mc::Quiet q;
        AlgorithmReducibleRecursionSearch<w128_t> ars(g, mt);
        if (!ars.start(521 * 100)) { mc::count("search failed"); continue; }
        GF2X irr = ars.getIrreducibleFactor(), l = ars.getCharacteristicPolynomial();
        Real at(g); getLCMPoly(l, g);
        int pos = 0, sl = 0, mx = 0; unsigned long long m1 = 0, m2 = 0;
        if (sscanf(g.getParamString().c_str(), "%d,%d,%d,%llx,%llx", &mx, &pos, &sl, &m1, &m2) != 5) { mc::fail("print", "unreadable parameters " + g.getParamString()); continue; }
        smp::Conf c = {"created", {uint64_t(mx), uint64_t(pos), uint64_t(sl), m1, m2}};
        smp::Model M(c); GF2X m = M.minimal(); Vec<Pair<GF2X, long> > fs; CanZass(fs, m);
        string base = "seed " + to_string(sd) + " parameters " + smp::join(c.p);
        if (deg(irr) != 521 || !IsZero(m % irr)) { mc::fail("search", base + ": the irreducible factor is none of degree 521"); continue; }
        if (lcm_check(c, M, at, l, m, fs, base)) mc::count("created parameter sets");
    }
}
#endif
void mc_main() {
    certification();
    largest();
#if defined(GEN_DSFMT)
    fixpoints();
    created();
#endif
}
