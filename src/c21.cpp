// C21: separate calculations and objects do not disturb each other.
//
// A calculation is a function of no arguments that builds its own objects, runs
// one algorithm of the library and returns everything it found as text.  All its
// calls of generator members pass through hook(), the points at which
//   - another complete calculation is run (nesting), or
//   - control is handed to a second calculation (a coroutine) and later back.
// What each calculation returns alone, in a process of its own, is the oracle.
#if defined(GEN_SFMT) || defined(GEN_DSFMT)
#include "samples.hpp"
#endif
#include "mc.hpp"
#include "temp.hpp"
#include "red.hpp"
#include "apart.hpp"
#include <ucontext.h>
#include <MTToolBox/period.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
using namespace MTToolBox;
using std::string; using std::vector; using std::to_string;

// ---- control ----------------------------------------------------------------
struct Co { ucontext_t ctx; vector<char> stack; std::function<string()> f; string out; bool done; long hooks, stop; };
static Co *running = 0; static ucontext_t back;
static long hooks = 0, nest_at = -1; static const std::function<string()> *nest_f = 0; static string nest_out;
static void hook() {
    if (running) { Co *c = running; if (c->hooks++ == c->stop) { running = 0; swapcontext(&c->ctx, &back); running = c; } return; }
    if (hooks++ == nest_at && nest_f) { const auto *f = nest_f; nest_f = 0; nest_out = (*f)(); }
}
static void entry(unsigned lo, unsigned hi) {
    Co *c = reinterpret_cast<Co *>(uintptr_t(hi) << 32 | lo);
    c->out = shielded(c->f); c->done = true; running = 0;
    swapcontext(&c->ctx, &back);
}
static vector<vector<char>> pool;
static void start(Co& c, const std::function<string()>& f) {
    c.f = f; c.done = false; c.hooks = 0; c.stop = -1; c.out.clear();
    if (c.stack.empty()) c.stack.resize(1 << 19);
    getcontext(&c.ctx); c.ctx.uc_stack.ss_sp = c.stack.data(); c.ctx.uc_stack.ss_size = c.stack.size(); c.ctx.uc_link = 0;
    uintptr_t p = reinterpret_cast<uintptr_t>(&c);
    makecontext(&c.ctx, (void (*)())entry, 2, unsigned(p), unsigned(p >> 32));
}
// run c until it is about to make call number `stop` (or to its end)
static void until(Co& c, long stop) { if (c.done) return; c.stop = stop; running = &c; swapcontext(&back, &c.ctx); running = 0; }

// ---- generators that pass through hook() -------------------------------------
template<class U> struct HStream : public gen::Stream {
    uint32_t getUint32() { hook(); return gen::Stream::getUint32(); }
    uint64_t getUint64() { hook(); return gen::Stream::getUint64(); }
};
template<class U> struct HTemp : public gen::Temp<U> {
    typedef gen::Temp<U> B;
    HTemp(const gen::Design<U>& d) : B(d) {}
    U generate() { hook(); return B::generate(); }
    U generate(int v) { hook(); return U(B::generate() & gen::topmask<U>(v)); }
    void seed(U v) { hook(); B::seed(v); }
    void setUpParam(ParameterGenerator& g) { hook(); B::setUpParam(g); hook(); }
    HTemp *clone() const { hook(); HTemp *r = new HTemp(*this); hook(); return r; }
    void add(EquidistributionCalculatable<U>& o) { hook(); B::add(o); }
    void setZero() { hook(); B::setZero(); }
    bool isZero() const { hook(); return B::isZero(); }
    int bitSize() const { hook(); return B::bitSize(); }
    void setOneBit(int b) { hook(); B::setOneBit(b); }
    U getParityValue() const { hook(); return B::getParityValue(); }
    void setParityValue(U p) { hook(); B::setParityValue(p); }
    int getMexp() const { hook(); return B::getMexp(); }
    void setTemperingPattern(U m, U p, int i) { hook(); B::setTemperingPattern(m, p, i); }
    void setUpTempering() { hook(); B::setUpTempering(); hook(); }
    void setReverseOutput() { hook(); B::setReverseOutput(); }
    void resetReverseOutput() { hook(); B::resetReverseOutput(); }
    string state() { std::ostringstream s; s << this->k << "/" << this->x << "/" << this->rev << "/" << uint64_t(this->parity); for (auto r : this->raw) s << "," << uint64_t(r); for (auto r : this->act) s << "," << uint64_t(r); return s.str(); }
};
template<class U> static std::shared_ptr<gen::Design<U>> design(const vector<uint64_t>& mods, int n, int sp, uint64_t fold, const vector<int>& sh, int mexp = 0, uint64_t seed = 1) {
    auto d = std::make_shared<gen::Design<U>>();
    for (uint64_t m : mods) { gen::Spec<U> s = gen::spread<U>(m, d->B, sp, fold | 1); s.declared = n; if (s.n < n) s.n = n; d->c.push_back(s); }
    d->size = n; d->mexp = mexp ? mexp : n; d->shifts = sh; d->seedstate = seed;
    return d;
}
struct Calc { string name; std::function<string()> f; string alone; long hooks; double work; };
static vector<Calc> calcs;
static string veqs(const vector<int>& v) { string s; for (int x : v) s += " " + to_string(x); return s; }

#if !defined(GEN_SFMT) && !defined(GEN_DSFMT)
static const char *F4[] = { "3", "5", 0 }, *F6[] = { "3", "7", 0 }, *F8[] = { "3", "5", "17", 0 };
template<class U> static void equi(const vector<uint64_t>& m, int n, int sp, int v) {
    auto d = design<U>(m, n, sp, ~0ull, { 2 });
    calcs.push_back({ "equidistribution", [=] { HTemp<U> g(*d); vector<int> q(v); int s; { AlgorithmEquidistribution<U> a(g, v, n); s = a.get_all_equidist(&q[0]); } int r = -1, k; { AlgorithmEquidistribution<U> a(g, v, n); k = a.get_equidist(&r); } return to_string(s) + veqs(q) + " " + to_string(k) + " " + to_string(r) + " " + g.state(); } });
}
template<class U> static void redequi(uint64_t f, uint64_t q, int v) {
    int df = orc::deg64(f), n = df + orc::deg64(q);
    auto d = design<U>({ orc::mul64(f, q) }, n, 1, ~0ull, { 2 }, df);
    calcs.push_back({ "component equidistribution", [=] { HTemp<U> g(*d); vector<int> e(v); NTL::GF2X F = orc::to_ntl(f); int s; { AlgorithmReducibleEquidistribution<U, HTemp<U> > a(g, F, v, df); s = a.get_all_equidist(&e[0]); } return to_string(s) + veqs(e) + " " + g.state(); } });
    calcs.push_back({ "annihilate", [=] { HTemp<U> g(*d); annihilate<U>(&g, orc::to_ntl(q)); NTL::GF2X p; calcCharacteristicPolynomial<U>(&g, p); return g.state() + " " + orc::str(p); } });
    calcs.push_back({ "parity", [=] { HTemp<U> g(*d); AlgorithmCalculateParity<U, HTemp<U> > a; U p = a.searchParity(g, orc::to_ntl(f)); return to_string(uint64_t(p)) + " " + g.state(); } });
}
template<class U> static void minp(uint64_t m, int n, int pos) {
    auto d = design<U>({ m }, n, 1, ~0ull, { 2 });
    calcs.push_back({ "minimal polynomial", [=] { HTemp<U> g(*d); NTL::GF2X p; minpoly<U>(p, g, pos); NTL::GF2X q; minpoly<U>(q, g, 0); return orc::str(p) + " " + orc::str(q) + " " + g.state(); } });
}
template<class U> static void rec(const vector<uint64_t>& m, int n, const char **fs, const vector<int>& st) {
    auto d = design<U>(m, n, 1, ~0ull, { 2 });
    calcs.push_back({ "recursion search", [=] {
        HTemp<U> g(*d); HStream<U> bg; bg.v = st; std::shared_ptr<AlgorithmPrimitivity> ap(fs ? new AlgorithmPrimitivity(fs) : new AlgorithmPrimitivity());
        AlgorithmRecursionSearch<U> s(g, bg, *ap); string r;
        for (int i = 0; i < 2; i++) { bool ok = s.start(3); r += to_string(ok) + " " + to_string(s.getCount()) + " " + to_string(bg.pos) + " "; if (ok) r += orc::str(s.getMinPoly()) + " " + s.getParamString() + " "; }
        return r + g.state(); } });
}
template<class U> static void redrec(const vector<uint64_t>& m, int n, int mexp, const vector<int>& st) {
    auto d = design<U>(m, n, 1, ~0ull, { 2 }, mexp);
    calcs.push_back({ "reducible search", [=] {
        HTemp<U> g(*d); HStream<U> bg; bg.v = st; AlgorithmReducibleRecursionSearch<U> s(g, bg); string r;
        for (int i = 0; i < 2; i++) { bool ok = s.start(3); r += to_string(ok) + " " + to_string(s.getCount()) + " " + to_string(bg.pos) + " "; if (ok) r += orc::str(s.getCharacteristicPolynomial()) + " " + orc::str(s.getIrreducibleFactor()) + " "; }
        return r + g.state(); } });
}
template<class U, int L> static void temper(uint64_t m, int n, int sp, bool best) {
    auto d = design<U>({ m }, n, sp, 0x5b5b6d6d5b5b6d6dull, { 3, 1 });
    if (!best) calcs.push_back({ "stepwise tempering", [=] { HTemp<U> g(*d); AlgorithmPartialBitPattern<U, L, 2, 3, 2, false> st; AlgorithmPartialBitPattern<U, L, 1, 2, 1, true> sl; int a = st(g, false), b = sl(g, false); return to_string(a) + " " + to_string(b) + " " + g.state(); } });
    else calcs.push_back({ "level-wise tempering", [=] { HTemp<U> g(*d); int sh[2] = { 3, 1 }; AlgorithmBestBits<U> st(L, sh, 2, 2); int a = st(g, false); return to_string(a) + " " + g.state(); } });
}
template<class U, int L> static void combined(const vector<uint64_t>& m, int n, const char **fs) {
    auto d = design<U>(m, n, 1, 0x6d6d5b5b0ff01ff3ull, { 2, 5 });
    calcs.push_back({ "combined search", [=] {
        HTemp<U> g(*d); HStream<U> bg; bg.v = { 1, 0, 0 }; std::shared_ptr<AlgorithmPrimitivity> ap(fs ? new AlgorithmPrimitivity(fs) : new AlgorithmPrimitivity());
        AlgorithmPartialBitPattern<U, L, 2, 2, 2, false> st; AlgorithmPartialBitPattern<U, L, 1, 1, 1, true> sl;
        AlgorithmRecursionAndTempering<U> a(bg, *ap); std::ostringstream os; bool r = a.search(g, st, sl, true, os);
        return to_string(r) + " " + orc::str(a.getCharacteristicPolynomial()) + " " + to_string(a.getWeight()) + " " + to_string(a.getDelta()) + " " + g.state(); } });
}
template<class U, int L> static void redcombined(uint64_t f, uint64_t q, uint64_t bad) {
    int df = orc::deg64(f), n = df + orc::deg64(q);
    auto d = design<U>({ orc::mul64(f, q), bad }, n, 1, ~0ull, { 2, 1 }, df);
    calcs.push_back({ "combined reducible search", [=] {
        HTemp<U> g(*d); HStream<U> bg; bg.v = { 1, 0, 0 };
        AlgorithmPartialBitPattern<U, L, 1, 2, 2, false> st; AlgorithmPartialBitPattern<U, L, 1, 1, 1, true> sl;
        AlgorithmReducibleRecursionAndTempering<U, HTemp<U> > a(bg); std::ostringstream os; bool r = a.search(g, st, sl, true, os);
        return to_string(r) + " " + to_string(a.getDelta()) + " " + g.state(); } });
}
template<class U> static void linear(uint64_t m, int n) {
    auto d = design<U>({ m }, n, 1, ~0ull, { 2 });
    calcs.push_back({ "linearity test", [=] { HTemp<U> g(*d); TestLinearity<U> t; bool r = t(g); return to_string(r) + g.state(); } });
}
// objects that are copied and assigned; the original goes away first, or the copy does
static void copies() {
    calcs.push_back({ "copied test of primitivity", [=] {
        string s; const char **fs[] = { F4, F6, F8 }; int dg[] = { 4, 6, 8 };
        auto ask = [&](AlgorithmPrimitivity& a, int k) { for (uint64_t m = (1u << dg[k]) | 1; m < (2u << dg[k]); m += 2) { NTL::GF2X p = orc::to_ntl(m); s += a(dg[k], p) ? 'P' : '.'; } s += '|'; };
        for (int k = 0; k < 3; k++) {
            AlgorithmPrimitivity *a = new AlgorithmPrimitivity(fs[k]); AlgorithmPrimitivity c(*a); hook(); ask(*a, k); hook(); delete a; hook(); ask(c, k);
            AlgorithmPrimitivity b(fs[(k + 1) % 3]); ask(b, (k + 1) % 3); b = c; hook(); ask(b, k); { AlgorithmPrimitivity e(b); ask(e, k); } hook(); ask(b, k); ask(c, k);
            c = c; ask(c, k); AlgorithmPrimitivity m; c = m; hook(); ask(b, k); b = AlgorithmPrimitivity(fs[(k + 2) % 3]); ask(b, (k + 2) % 3);
        }
        return s; } });
    calcs.push_back({ "copied level-wise tempering", [=] {
        auto d = design<uint32_t>({ 0x25 }, 5, 1, 0x5b5b6d6d5b5b6d6dull, { 3, 1 }); string s; int sa[2] = { 3, 1 }, sb[1] = { 2 };
        auto ask = [&](AlgorithmBestBits<uint32_t>& a) { HTemp<uint32_t> g(*d); hook(); a(g, false); s += g.state() + "|"; };
        AlgorithmBestBits<uint32_t> *a = new AlgorithmBestBits<uint32_t>(4, sa, 2, 1); AlgorithmBestBits<uint32_t> c(*a); ask(*a); delete a; ask(c);
        AlgorithmBestBits<uint32_t> b(3, sb, 1, 1); ask(b); b = c; ask(b); { AlgorithmBestBits<uint32_t> e(b); ask(e); } ask(b); c = c; ask(c);
        return s; } });
}
static void verdicts(int which) {
    calcs.push_back({ "verdicts", [=] {
        string s; const char **fs[] = { F4, F6, F8 }; int dg[] = { 4, 6, 8 };
        for (int d = 2; d < 7; d++) for (uint64_t m = (1u << d) | 1; m < (2u << d); m += 2 + 2 * which) { hook(); NTL::GF2X p = orc::to_ntl(m); s += isIrreducible(p) ? 'i' : '-'; if (isMexp(d)) s += isPrime(p) ? 'p' : '-'; NTL::GF2X q(p); if (d > 2) { s += hasFactorOfDegree(q, d - 1 - which) ? 'f' : '-'; s += orc::str(q).substr(0, 3); } }
        for (int k = 0; k < 3; k++) { AlgorithmPrimitivity a(fs[(k + which) % 3]), b(fs[k]); for (uint64_t m = (1u << dg[(k + which) % 3]) | 1; m < (2u << dg[(k + which) % 3]); m += 2 << k) { hook(); NTL::GF2X p = orc::to_ntl(m); s += a(dg[(k + which) % 3], p) ? 'P' : '.'; } }
        return s; } });
}
template<class S, class W> static void twister(const char *name, uint64_t sd) {
    calcs.push_back({ name, [=] {
        S m(W(sd + 1)); string s; int n = 0;
        for (int t = 0; t < 3; t++) {
            uint64_t h = 0;
            for (int i = 0; i < 700; i++) { if (n++ % 350 == 0) hook(); h = h * 31 + m.getUint32(); h = h * 31 + m.getUint64(); }
            s += " " + mc::hex(h); hook();
            if (t == 0) { W k[5] = { W(sd), 2, 3, 4, 5 }; m.seed_array(k, 3 + int(sd & 1)); } else m.seed(W(sd * 77));
        }
        S c(m); uint64_t a = m.getUint64(), b = c.getUint64(); hook(); S *e = new S(W(1)); *e = c; c = m; s += " " + to_string(e->getUint64()) + " " + to_string(c.getUint64()); delete e; *&c = c; return s + " " + to_string(a) + " " + to_string(b) + " " + to_string(c.getUint64()); } });
}
static void counter(uint32_t mask, uint32_t st) {
    calcs.push_back({ "counter", [=] {
        Sequential<uint32_t> q(mask, st); Sequential<uint64_t> w(mask * 3ull, st + 2); string s;
        for (int t = 0; t < 8; t++) { hook(); try { s += " " + to_string(q.getUint32()); } catch (const std::underflow_error&) { s += " end"; q.seed(st + 1); } hook(); try { s += " " + to_string(w.getUint64()); } catch (const std::underflow_error&) { s += " end"; } }
        return s; } });
}
static void make() {
    equi<uint32_t>({ 0x25 }, 5, 1, 5); equi<uint32_t>({ 0x43 }, 6, 2, 7); equi<uint64_t>({ 0x25 }, 5, 2, 6); equi<uint16_t>({ 0x13 }, 4, 1, 4);
    redequi<uint32_t>(0xb, 0x7, 3); redequi<uint32_t>(0x25, 0x7, 4); redequi<uint64_t>(0xd, 0xb, 3);
    minp<uint32_t>(0x83, 7, 3); minp<uint32_t>(0x2a3, 9, 30); minp<uint64_t>(0x83, 7, 5); minp<uint16_t>(0x89, 7, 1);
    rec<uint32_t>({ 0x25, 0x33, 0x3b }, 5, 0, { 1, 0, 1, 1, 2 }); rec<uint32_t>({ 0x43, 0x49, 0x57 }, 6, F6, { 1, 2, 1, 0, 0 }); rec<uint64_t>({ 0xb, 0x9 }, 3, 0, { 1, 1, 1, 0 }); rec<uint16_t>({ 0x13, 0x1f }, 4, F4, { 0, 1, 1, 0 });
    redrec<uint32_t>({ 0x31, 0x2d, 0x37 }, 5, 3, { 1, 0, 2, 0, 0, 1 }); redrec<uint32_t>({ 0xc5, 0xa1, 0xf1, 0x91 }, 7, 5, { 0, 1, 2, 3, 3, 3 }); redrec<uint64_t>({ 0x31, 0x2d, 0x37 }, 5, 3, { 2, 1, 0 });
    temper<uint32_t, 4>(0x25, 5, 1, false); temper<uint32_t, 4>(0x43, 6, 2, false); temper<uint64_t, 4>(0x13, 4, 1, false);
    temper<uint32_t, 4>(0x25, 5, 1, true); temper<uint32_t, 4>(0x43, 6, 2, true); temper<uint64_t, 4>(0x13, 4, 1, true);
    combined<uint32_t, 4>({ 0x25, 0x33 }, 5, 0); combined<uint32_t, 4>({ 0x43, 0x57 }, 6, F6); combined<uint64_t, 4>({ 0xb, 0x9 }, 3, 0);
    redcombined<uint32_t, 4>(0xb, 0x7, 0x21); redcombined<uint32_t, 4>(0x25, 0x7, 0x81); redcombined<uint64_t, 4>(0xd, 0x7, 0x21);
    if (mc::g.thorough) { temper<uint32_t, 32>(0x25, 5, 1, false); temper<uint64_t, 64>(0x13, 4, 1, true); combined<uint32_t, 32>({ 0x25, 0x33 }, 5, 0); redcombined<uint32_t, 32>(0xb, 0x7, 0x21); }
    copies();
    linear<uint32_t>(0x25, 5); linear<uint64_t>(0x13, 4);
    verdicts(0); verdicts(1);
    twister<MersenneTwister, uint32_t>("MersenneTwister", 5); twister<MersenneTwister, uint32_t>("MersenneTwister", 8); twister<MersenneTwister64, uint64_t>("MersenneTwister64", 5); twister<MersenneTwister64, uint64_t>("MersenneTwister64", 8);
    counter(5, 6); counter(0xffffffff, 3);
}
#else
#if defined(GEN_SFMT)
#include "AlgorithmSIMDEquidistribution.hpp"
typedef MTToolBox::sfmt Real;
#else
#include "AlgorithmDSFMTEquidistribution.hpp"
typedef MTToolBox::dSFMT Real;
#endif
#include "syn.hpp"
struct HSyn : public Syn {
    HSyn(const Tab& t, uint64_t x) : Syn(t, x) {}
    HSyn(const HSyn& o) : Syn(o) { hook(); }
    w128_t generate() { hook(); return Syn::generate(); }
    w128_t generate(int v) { hook(); return and_mask(Syn::generate(), make_msb_mask(v)); }
    void setZero() { hook(); Syn::setZero(); }
    bool isZero() const { hook(); return Syn::isZero(); }
    EquidistributionCalculatable<w128_t> *clone() const { return new HSyn(*this); }
    void add(EquidistributionCalculatable<w128_t>& q) { hook(); Syn::add(q); hook(); }
};
struct HReal : public Real {
    HReal(const Real& g) : Real(g) {}
    HReal(const HReal& g) : Real(g) { hook(); }
    w128_t generate() { hook(); return Real::generate(); }
    w128_t generate(int v) { hook(); return Real::generate(v); }
    void setZero() { hook(); Real::setZero(); }
    bool isZero() const { hook(); return Real::isZero(); }
    EquidistributionCalculatable<w128_t> *clone() const { return new HReal(*this); }
    void add(EquidistributionCalculatable<w128_t>& q) { hook(); Real::add(q); hook(); }
};
template<class G> static string kv(const G& g, int n, int maxv, int el, bool lsb) {
    vector<int> q(maxv); int s;
#if defined(GEN_SFMT)
    SIMDInfo info; info.bitMode = el == 4 ? 32 : 64; info.elementNo = el; info.bitSize = 128;
    s = calc_SIMD_equidistribution<w128_t, G>(g, q.data(), maxv, info, n, lsb);
#else
    DSFMTInfo info; info.bitSize = 128; info.elementNo = 2; (void)el; (void)lsb;
    s = calc_dSFMT_equidistribution<w128_t, G>(g, q.data(), maxv, info, n);
#endif
    return to_string(s) + veqs(q);
}
static void syn(uint64_t m, int maxv, int el, bool lsb, uint64_t twist) {
    auto t = std::make_shared<Tab>(); t->m = m; t->n = orc::deg64(m);
    for (int i = 0; i < 64; i++) { t->col[i].u64[0] = t->col[i].u64[1] = 0; if (i < t->n) for (int h = 0; h < 2; h++) t->col[i].u64[h] = smp::mixk(twist + 2 * i + h); }
    calcs.push_back({ "SIMD equidistribution", [=] { HSyn g(*t, 1); return kv(g, t->n, maxv, el, lsb); } });
}
static void real(int c, int steps) {
    calcs.push_back({ "real object", [=] {
        smp::Conf cf = smp::confs(false)[c]; std::unique_ptr<Real> r(smp::make(cf)); HReal g(*r); smp::Row o;
        for (int i = 0; i < steps; i++) { smp::putw(o, g.generate()); if (i % 5 == 2) { std::unique_ptr<EquidistributionCalculatable<w128_t>> k(g.clone()); g.generate(); g.add(*k); } if (i % 7 == 6) { hook(); smp::ListPG<ParameterGenerator> pg({ uint64_t(i), uint64_t(c), 3, 4, 5, 6, 7, 8, 9, 1, 2, 3, 4 }); g.setUpParam(pg); } }
        hook(); return smp::join(o) + g.getParamString(); } });
    calcs.push_back({ "real minimal polynomial", [=] {
        smp::Conf cf = smp::confs(false)[c]; std::unique_ptr<Real> r(smp::make(cf)); HReal g(*r); NTL::GF2X p; minpoly<w128_t>(p, g, 3 + c); NTL::GF2X q(p);
        bool f = hasFactorOfDegree(q, 10); return orc::str(p) + to_string(f) + orc::str(q) + smp::join(smp::window(g, 3)); } });
}
static void make() {
    syn(0x25, 4, 4, false, 1); syn(0x25, 5, 2, true, 2); syn(0x43, 3, 4, true, 3); syn(0x83, 3, 2, false, 4); syn(0x11d, 4, 4, false, 5);
    real(0, 20); real(1, 20);
}
#endif

// ---- exploration ---------------------------------------------------------------
static string label(size_t i) { return calcs[i].name + " #" + to_string(i); }
static bool same(size_t i, const string& got, const string& how) {
    if (got == calcs[i].alone) return true;
    mc::fail("disturbed", label(i) + " " + how + " gives \"" + got.substr(0, 160) + "\", alone \"" + calcs[i].alone.substr(0, 160) + "\"");
    return false;
}
// a case whose runs must not leave traces for the next one: done in a process of its own, reporting a failure as text
static void isolated(const std::function<string(uint64_t&)>& f) {
    string r = apart([&] { uint64_t n = 0; string e = f(n); return to_string(n) + "|" + e; });
    size_t b = r.find('|');
    if (b == string::npos || r.compare(0, 4, "died") == 0 || r.compare(0, 9, "exception") == 0) { mc::fail("disturbed", "the run " + r.substr(0, 200)); return; }
    mc::trans(strtoull(r.c_str(), 0, 10)); mc::state(); mc::trace(strtoull(r.c_str(), 0, 10)); mc::nontrivial();
    if (b + 1 < r.size()) mc::fail("disturbed", r.substr(b + 1));
}
// ---- copies of equidistribution objects -----------------------------------------
// mk(0) and mk(1) make objects for two different calculations, ask(a) carries a calculation out
template<class Mk, class Ask> static string programs(Mk mk, Ask ask, uint64_t& n) {
    typedef typename std::remove_reference<decltype(*mk(0))>::type A; typedef std::unique_ptr<A> P;
    string bad; if constexpr (std::is_copy_constructible<A>::value && std::is_copy_assignable<A>::value) {
    string want[2]; for (int w = 0; w < 2; w++) want[w] = ask(*mk(w));
    auto look = [&](A& a, int w, const char *how) { n++; string g = ask(a); if (bad.empty() && g != want[w]) bad = string(how) + " gives " + g + ", expected " + want[w]; };
    for (int w = 0; w < 2; w++) {
        const int o = 1 - w;
        { P a(mk(w)); P b(new A(*a)); look(*a, w, "an object that was copied"); look(*b, w, "a copy, after its original"); }
        { P a(mk(w)); P b(new A(*a)); look(*b, w, "a copy"); look(*a, w, "an object, after its copy"); }
        { P a(mk(w)); P b(new A(*a)); a.reset(); look(*b, w, "a copy whose original is gone"); }
        { P a(mk(w)); { A b(*a); } look(*a, w, "an object whose copy is gone"); }
        { P a(mk(w)); { A b(*a); look(b, w, "a copy"); } look(*a, w, "an object whose copy was used and is gone"); }
        { P a(mk(w)); P b(new A(*a)); P c(new A(*b)); b.reset(); look(*c, w, "a copy of a copy"); look(*a, w, "an object copied twice"); }
        { P a(mk(w)); P b(mk(o)); *b = *a; look(*b, w, "an object assigned another"); look(*a, w, "an object assigned to another"); }
        { P a(mk(w)); P b(mk(o)); *b = *a; look(*a, w, "an object assigned to another"); look(*b, w, "an object assigned another, after it"); }
        { P a(mk(w)); P b(mk(o)); *b = *a; a.reset(); look(*b, w, "an object assigned another that is gone"); }
        { P a(mk(w)); P b(mk(o)); *b = *a; b.reset(); look(*a, w, "an object assigned to another that is gone"); }
        { P a(mk(w)); P b(mk(o)); look(*b, o, "an object"); *b = *a; look(*b, w, "a used object assigned another"); look(*a, w, "an object assigned to a used one"); }
        { P a(mk(w)); P b(mk(o)); *b = *a; *b = *P(mk(o)); look(*b, o, "an object assigned twice"); look(*a, w, "an object assigned before that"); }
        { P a(mk(w)); A& same = *a; *a = same; look(*a, w, "an object assigned itself"); }
        { P a(mk(w)), b(mk(o)); std::swap(*a, *b); look(*a, o, "an exchanged object"); look(*b, w, "an exchanged object"); }
        { P a(mk(w)); look(*a, w, "an object"); P b(new A(*a)); a.reset(); P c(mk(o)); *c = *b; }           // a used one may be copied as well
    } }
    return bad;
}
#if !defined(GEN_SFMT) && !defined(GEN_DSFMT)
template<class U> static void copied_equi(int bits) {
    for (int n = 2; n <= (mc::g.thorough ? 7 : 5); n++) for (uint64_t m = 1ull << n; m < 2ull << n; m++) {
        if (!mc::begin("copied", bits, n, m)) continue;
        isolated([&](uint64_t& k) {
            for (int sp = 1; sp <= 2; sp++) for (int v = 1; v <= n + 1; v++) for (int v2 = 1; v2 <= n + 1; v2 += n) for (int form = 0; form < 2; form++) {
                auto d = design<U>({ m }, n, sp, ~0ull, { 2 }), d2 = design<U>({ 0x25 }, 5, 3 - sp, ~0ull, { 2 });
                int len[2] = { v, v2 };
                auto mk = [&](int w) { HTemp<U> g(w ? *d2 : *d); return std::unique_ptr<AlgorithmEquidistribution<U> >(new AlgorithmEquidistribution<U>(g, len[w], w ? 0 : n)); };
                auto ask = [&](AlgorithmEquidistribution<U>& a) { vector<int> q(80); int s, t = 0; if (form) s = a.get_equidist(&t); else s = a.get_all_equidist(&q[0]); return to_string(s) + "," + to_string(t) + veqs(q); };
                string e = programs(mk, ask, k); if (!e.empty()) return "x^i mod " + orc::str(orc::to_ntl(m)) + " to " + to_string(v) + " bits: " + e;
            }
            return string();
        });
    }
    for (uint64_t f : { 0x7ull, 0xbull, 0x25ull }) for (uint64_t q : { 0x3ull, 0x7ull, 0xdull, 0x15ull }) {
        if (f == q || !mc::begin("copied component", bits, f, q)) continue;
        isolated([&](uint64_t& k) {
            int df = orc::deg64(f), n = df + orc::deg64(q);
            for (int v = 1; v <= n; v++) for (int form = 0; form < 2; form++) {
                auto d = design<U>({ orc::mul64(f, q) }, n, 1, ~0ull, { 2 }, df), d2 = design<U>({ orc::mul64(0xb, 0x13) }, 7, 1, ~0ull, { 2 }, 3);
                typedef AlgorithmReducibleEquidistribution<U, HTemp<U> > A;
                auto mk = [&](int w) { HTemp<U> g(w ? *d2 : *d); return std::unique_ptr<A>(w ? new A(g, orc::to_ntl(0xb), 3, 3) : new A(g, orc::to_ntl(f), v, df)); };
                auto ask = [&](A& a) { vector<int> q(80); int s, t = 0; if (form) s = a.get_equidist(&t); else s = a.get_all_equidist(&q[0]); return to_string(s) + "," + to_string(t) + veqs(q); };
                string e = programs(mk, ask, k); if (!e.empty()) return "component " + orc::str(orc::to_ntl(f)) + " to " + to_string(v) + " bits: " + e;
            }
            return string();
        });
    }
}
static void copied() { copied_equi<uint32_t>(32); copied_equi<uint64_t>(64); copied_equi<uint16_t>(16); }
#else
static void copied() {
    for (int n = 2; n <= (mc::g.thorough ? 7 : 5); n++) for (uint64_t m = (1ull << n) | 1; m < 2ull << n; m += 2) {
        if (!mc::begin("copied", n, m)) continue;
        isolated([&](uint64_t& k) {
            auto tab = [](uint64_t m, uint64_t twist) { Tab t; t.m = m; t.n = orc::deg64(m); for (int i = 0; i < 64; i++) { t.col[i].u64[0] = t.col[i].u64[1] = 0; if (i < t.n) for (int h = 0; h < 2; h++) t.col[i].u64[h] = smp::mixk(twist + 2 * i + h); } return t; };
            Tab ta = tab(m, 3), tb = tab(0x25, 8);
#if defined(GEN_SFMT)
            typedef AlgorithmSIMDEquidistribution<w128_t, HSyn> A; const int el[] = { 4, 2, 1 };
            for (int e : el) for (int lsb = 0; lsb < 2; lsb++) for (int v = 1; v <= 3; v++) {
                SIMDInfo i0, i1; i0.bitMode = e == 4 ? 32 : e == 2 ? 64 : 128; i0.elementNo = e; i0.bitSize = 128; i1 = i0; i1.bitMode = 64; i1.elementNo = 2;
                int len[2] = { v, 2 };
#else
            typedef AlgorithmDSFMTEquidistribution<w128_t, HSyn> A;
            for (int v = 1; v <= 4; v++) {
                DSFMTInfo i0; i0.bitSize = 128; i0.elementNo = 2; int len[2] = { v, 2 };
#endif
                for (int same = 0; same < 2; same++) {
                    // objects for one accuracy, so that the question is the same whichever it is put to
                    if (same) len[1] = len[0]; else len[0] = len[1];
                    auto mk2 = [&](int w) {
                        HSyn g(w ? tb : ta, 1); g.generate();
#if defined(GEN_SFMT)
                        return std::unique_ptr<A>(new A(g, len[w], w && !same ? i1 : i0, w ? 5 : n, w ? false : lsb));
#else
                        return std::unique_ptr<A>(new A(g, len[w], i0, w ? 5 : n));
#endif
                    };
                    auto ask = [&](A& a) { return to_string(a.get_equidist(len[0])); };
                    string e2 = programs(mk2, ask, k); if (!e2.empty()) return "x^i mod " + orc::str(orc::to_ntl(m)) + " to " + to_string(len[0]) + " bits: " + e2;
                    len[0] = v; len[1] = 2;
                }
            }
            return string();
        });
    }
}
#endif

static string diff(size_t i, const string& got, const string& how) { return got == calcs[i].alone ? "" : label(i) + " " + how + " gives \"" + got.substr(0, 160) + "\", alone \"" + calcs[i].alone.substr(0, 160) + "\""; }

// interleavings of operation lists on two objects of one kind; ops return text
struct Obj { virtual ~Obj() {} virtual string op(int k) = 0; virtual Obj *copy() { return 0; } };
static void lists(const char *name, int nops, int len, const std::function<Obj *(int)>& mk) {
    long total = 1; for (int i = 0; i < len; i++) total *= nops;
    // what every list gives alone, for both starting objects
    vector<vector<vector<string>>> alone(2, vector<vector<string>>(total));
    auto ops = [&](long c) { vector<int> r; for (int i = 0; i < len; i++) { r.push_back(int(c % nops)); c /= nops; } return r; };
    bool have = false;
    for (long a = 0; a < total; a++) {
        if (!mc::begin(name, a)) continue;
        if (!have) {
            have = true;
            for (int w = 0; w < 2; w++) for (long c = 0; c < total; c++) {
                string s = apart([&] { string t; std::unique_ptr<Obj> o(mk(w)); for (int k : ops(c)) t += o->op(k) + "\n"; return t; });
                std::istringstream is(s); string line; while (std::getline(is, line)) alone[w][c].push_back(line);
                mc::heartbeat = mc::heartbeat + 1;
                if (int(alone[w][c].size()) != len) { mc::fail("alone", "list " + to_string(c) + " alone: " + s.substr(0, 200)); alone[w][c].resize(len); }
            }
        }
        vector<int> la = ops(a);
        isolated([&](uint64_t& n) {
            for (long b = 0; b < total; b++) {
                vector<int> lb = ops(b);
                for (int mask = 0; mask < (1 << (2 * len)); mask++) {
                    if (__builtin_popcount(unsigned(mask)) != len) continue;
                    std::unique_ptr<Obj> x(mk(0)), y(mk(1)); int i = 0, j = 0; n++;
                    for (int s = 0; s < 2 * len; s++) {
                        bool first = mask >> s & 1; string r = first ? x->op(la[i]) : y->op(lb[j]); const string& w = first ? alone[0][a][i] : alone[1][b][j];
                        if (r != w) return string(name) + ": operation " + to_string(first ? i : j) + " of list " + to_string(first ? a : b) + " on the " + (first ? "first" : "second") + " object gives " + r.substr(0, 80) + ", alone " + w.substr(0, 80) + " (order " + to_string(mask) + ")";
                        (first ? i : j)++;
                    }
                }
            }
            return string();
        });
        mc::state(total);
    }
}
#if !defined(GEN_SFMT) && !defined(GEN_DSFMT)
template<class S, class W> struct TwObj : Obj {
    S m; TwObj(int w) : m(W(11 + w)) {}
    string op(int k) {
        switch (k) {
        case 0: return to_string(m.getUint32());
        case 1: return to_string(m.getUint64());
        case 2: m.seed(W(3)); return "";
        case 3: { W a[3] = { 1, 2, 3 }; m.seed_array(a, 3); return ""; }
        case 4: { S c(m); return to_string(c.getUint64()); }
        default: { uint64_t h = 0; for (int i = 0; i < 330; i++) h = h * 31 + m.getUint64(); return to_string(h); }
        }
    }
};
struct SeqObj : Obj {
    Sequential<uint16_t> q; SeqObj(int w) : q(uint16_t(w ? 5 : 0), uint16_t(w ? 3 : 2)) {}
    string op(int k) {
        try {
            switch (k) { case 0: return to_string(q.next()); case 1: return to_string(q.getUint32()); case 2: return to_string(q.getUint64()); case 3: q.seed(uint32_t(4)); return ""; case 4: { Sequential<uint16_t> c(q); return to_string(c.next()); } default: q.seed(uint32_t(0)); return to_string(q.next()); }
        } catch (const std::underflow_error&) { return "end"; }
    }
};
#endif
void mc_main() {
    const bool T = mc::g.thorough; mc::Quiet q;
    make();
    for (auto& c : calcs) { string r = apart([&] { hooks = 0; string s = c.f(); return to_string(hooks) + "|" + s; }); size_t b = r.find('|'); c.hooks = atol(r.c_str()); c.alone = b == string::npos ? r : r.substr(b + 1); c.work = double(c.hooks) + (c.name == "copied test of primitivity" ? 40000 : c.name == "verdicts" ? 8000 : c.name.find("SIMD") == 0 ? 500 : c.name.find("real") == 0 ? 5000 : 100); }
    const size_t N = calcs.size();
    // each alone again, twice over in one process
    for (size_t i = 0; i < N; i++) {
        if (!mc::begin("alone", i)) continue;
        mc::count("generator calls", calcs[i].hooks);
        if (calcs[i].alone.compare(0, 4, "died") == 0 || calcs[i].alone.compare(0, 9, "exception") == 0) mc::fail("alone", label(i) + ": " + calcs[i].alone.substr(0, 200));
        isolated([&](uint64_t& n) { string e; for (int t = 0; t < 3 && e.empty(); t++, n++) e = diff(i, shielded(calcs[i].f), "run " + to_string(t + 1) + " times"); return e; });
        if (mc::want_sample()) mc::sample(label(i) + ": " + calcs[i].alone.substr(0, 100));
    }
    copied();
    // one after another
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        if (!mc::begin("sequence", i, j)) continue;
        isolated([&](uint64_t& n) {
            string e;
            for (size_t k = 0; k < (T ? N : 1); k++) {
                for (size_t x : { i, j, T ? k : i, j }) { n++; e = diff(x, shielded(calcs[x].f), "after " + label(i) + " and " + label(j)); if (!e.empty()) return e; }
            }
            return e;
        });
    }
    // one inside every call made by the other
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        double cost = double(calcs[i].hooks) * (calcs[i].work + calcs[j].work);
        const double limit = T ? 1e9 : 5e6; const long step = cost > limit ? long(cost / limit) + 1 : 1;
        if (step > 1 && mc::g.shard == 0) mc::count("pairs nested at every k-th call only");
        if (!mc::begin("nested", i, j)) continue;
        isolated([&](uint64_t& n) {
            string e;
            for (long h = long(j) % step; h < calcs[i].hooks; h += step) {
                hooks = 0; nest_at = h; nest_f = &calcs[j].f; nest_out = "not run"; string r = shielded(calcs[i].f); nest_f = 0; nest_at = -1; n++;
                string at = " at generator call " + to_string(h);
                e = diff(i, r, "with " + label(j) + " run inside it" + at); if (e.empty()) e = diff(j, nest_out, "run inside " + label(i) + at);
                if (!e.empty()) break;
            }
            return e;
        });
    }
    // all schedules with two preemptions: i up to a call, j up to a call, i to its end, j to its end
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        double cost = double(calcs[i].hooks) * double(calcs[j].hooks) * (calcs[i].work + calcs[j].work);
        bool alike = calcs[i].name == calcs[j].name;
        if (cost > (T ? 2e9 : alike ? 3e7 : 3e6)) { if (mc::g.shard == 0) mc::count("pairs with every preemption point of one only"); continue; }
        if (!mc::begin("preempted", i, j)) continue;
        isolated([&](uint64_t& n) {
            string e; static Co a, b;
            for (long x = 0; x <= calcs[i].hooks; x++) for (long y = 0; y <= calcs[j].hooks; y++) {
                start(a, calcs[i].f); start(b, calcs[j].f);
                until(a, x); until(b, y); until(a, -1); until(b, -1); n++;
                string at = " interleaved, switching at calls " + to_string(x) + " and " + to_string(y);
                e = diff(i, a.out, "and " + label(j) + at); if (e.empty()) e = diff(j, b.out, "and " + label(i) + at);
                if (!e.empty()) return e;
            }
            return e;
        });
    }
    // round robin: a switch at every s-th call
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) for (int s = 1; s <= (T ? 12 : 4); s++) {
        if (!mc::begin("roundrobin", i, j, s)) continue;
        isolated([&](uint64_t& n) {
            string e; static Co a, b;
            start(a, calcs[i].f); start(b, calcs[j].f);
            for (long t = s - 1; !a.done || !b.done; t += s) { until(a, t); until(b, t); n++; }
            e = diff(i, a.out, "and " + label(j) + " switching every " + to_string(s) + " calls"); if (e.empty()) e = diff(j, b.out, "and " + label(i) + " switching every " + to_string(s) + " calls");
            return e;
        });
    }
#if !defined(GEN_SFMT) && !defined(GEN_DSFMT)
    lists("counters", 6, T ? 4 : 3, [](int w) -> Obj * { return new SeqObj(w); });
    lists("twisters", 6, 2 + T, [](int w) -> Obj * { return new TwObj<MersenneTwister, uint32_t>(w); });
    lists("twisters64", 6, 2 + T, [](int w) -> Obj * { return new TwObj<MersenneTwister64, uint64_t>(w); });
#endif
}
