// C21 for the procedures of the samples: each worked out alone in a process of its own, then
// every ordered pair one after another and back again in one process.
#include "mc.hpp"
#include "line.hpp"
#include "apart.hpp"
#include <memory>
#include <MTToolBox/period.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#endif
#if defined(GEN_SFMT)
#include "AlgorithmSIMDEquidistribution.hpp"
#include "Annihilate.h"
#elif defined(GEN_DSFMT)
#include "AlgorithmDSFMTEquidistribution.hpp"
#include "Annihilate.h"
#include "calc_fixpoint.h"
#include "calc_parity.h"
#endif
using namespace MTToolBox;
using NTL::GF2X;
typedef std::unique_ptr<G> P;
struct Calc { string name; std::function<string()> f; string alone; };
static vector<Calc> calcs;
static string poly(const GF2X& p) { uint64_t h = 7; for (long i = 0; i <= deg(p); i++) h = h * 1000003 + (IsOne(coeff(p, i)) ? i + 11 : 0); return to_string(deg(p)) + ":" + mc::hex(h); }
static string win(G& g, int K = 12) { P c(cl(g)); Row r; for (int i = 0; i < K; i++) putw(r, c->generate()); return join(r); }
static string dims(const vector<int>& k) { string s; for (int x : k) s += " " + to_string(x); return s; }
static string word(const U& u) { Row r; putw(r, u); return join(r); }

#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
static const char *sets[] = {
#include "c27_sets.inc"
};
static const char *HEAD =
#if defined(GEN_RMT)
    "mexp,pos,mata,parity,maskb,maskc";
#elif defined(GEN_SFMT)
    "mexp,pos1,sl1,sl2,sr1,sr2,msk1,msk2,msk3,msk4,parity1,parity2,parity3,parity4";
#else
    "mexp,pos1,sl1,msk1,msk2,fix1,fix2,parity1,parity2";
#endif
static Conf read(int i) {
    vector<string> v = split(sets[i], true); size_t n = split(HEAD, false).size(); string s;
    for (size_t k = 0; k < n; k++) s += (k ? "," : "") + v[k];
    Line l(HEAD, s); Conf c = conf(l);
    if (!l.err.empty()) mc::fail("set", l.err);
    return c;
}
#if defined(GEN_RMT)
static void large(G& g, GF2X& irr, GF2X& all) { minpoly<U>(all, g); irr = all; if (!hasFactorOfDegree(irr, g.getMexp())) throw "no factor"; calcCharacteristicPolynomial(&g, all); }
static bool anni(G& g) { GF2X irr, all; large(g, irr, all); GF2X q = all / irr; annihilate<U>(&g, q); return true; }
#elif defined(GEN_SFMT)
static void large(G& g, GF2X& irr, GF2X& all) { minpoly<U>(all, g); irr = all; if (!hasFactorOfDegree(irr, g.getMexp())) throw "no factor"; calcCharacteristicPolynomial(&g, all); }
#else
static void large(G& g, GF2X& irr, GF2X& all) { minpoly<U>(all, g); irr = all; if (!hasFactorOfDegree(irr, g.getMexp())) throw "no factor"; getLCMPoly(all, g); }
#endif
static void family(const Conf& c) {
    string n = to_string(c.p[0]) + "/" + to_string(c.p[1]);
    auto put = [&](const string& name, const std::function<string()>& f) { calcs.push_back({ name + " of " + n, f, "" }); };
    put("polynomials", [=] { P g(make(c)); GF2X a, b; large(*g, a, b); return poly(a) + " " + poly(b) + " " + win(*g, 4); });
    put("component", [=] { P g(make(c)); bool ok = anni(*g); return to_string(ok) + " " + win(*g); });
    put("parity", [=] { P g(make(c)); GF2X a, b; large(*g, a, b); AlgorithmCalculateParity<U, G> p; U r = p.searchParity(*g, a); return word(r) + " " + word(g->getParityValue()) + " " + g->getParamString() + win(*g, 4); });
#if defined(GEN_DSFMT)
    put("parity procedure", [=] { P g(make(c)); GF2X a, b; large(*g, a, b); U r = calc_parity(*g, a); return word(r) + " " + win(*g, 4); });
    put("fixed point", [=] { P g(make(c)); GF2X a, b; large(*g, a, b); GF2X q = b / a; U r = calc_fixpoint(*g, a, q); return word(r) + " " + win(*g, 4); });
    put("certified start", [=] { P g(make(c)); GF2X a, b; large(*g, a, b); calc_parity(*g, a); string r; for (int k = 0; k < 6; k++) { seedk(*g, k); r += to_string(g->periodCertification()) + to_string(g->periodCertification(true)) + " "; } return r + win(*g, 4); });
    put("dimensions", [=] { P g(make(c)); anni(*g); vector<int> v(5); DSFMTInfo info; info.bitSize = 128; info.elementNo = 2; int d = calc_dSFMT_equidistribution<w128_t, dSFMT>(*g, &v[0], 5, info, int(c.p[0])); return to_string(d) + dims(v) + win(*g, 4); });
#elif defined(GEN_SFMT)
    put("certified start", [=] { P g(make(c)); GF2X a, b; large(*g, a, b); AlgorithmCalculateParity<U, G> p; p.searchParity(*g, a); string r; for (int k = 0; k < 6; k++) { seedk(*g, k); r += to_string(g->periodCertification()) + " "; } return r + win(*g, 4); });
    for (int el : { 4, 2 }) put("dimensions by " + to_string(128 / el), [=] { P g(make(c)); anni(*g); vector<int> v(4); SIMDInfo info; info.bitSize = 128; info.elementNo = el; info.bitMode = 128 / el; int d = calc_SIMD_equidistribution<w128_t, sfmt>(*g, &v[0], 4, info, int(c.p[0])); return to_string(d) + dims(v) + win(*g, 4); });
#endif
#if !defined(GEN_DSFMT)
    put("dimensions", [=] { P g(make(c)); anni(*g); vector<int> v(6); int d; { AlgorithmEquidistribution<U> e(*g, 6, int(c.p[0])); d = e.get_all_equidist(&v[0]); } return to_string(d) + dims(v) + win(*g, 4); });
#endif
    put("search", [=] { P g(make(c)); MersenneTwister mt(uint32_t(c.p[1]) + 3); AlgorithmReducibleRecursionSearch<U> s(*g, mt); string r; for (int t = 0; t < 2; t++) { bool ok = s.start(12); r += to_string(ok) + " " + to_string(s.getCount()) + " " + s.getParamString() + " " + poly(s.getCharacteristicPolynomial()) + " "; } return r; });
}
static void make_all() {
    vector<int> chosen; std::map<int, int> per;
    for (int i = 0; i < int(sizeof sets / sizeof *sets); i++) { int m = atoi(sets[i]); if (per[m]++ < (mc::g.thorough ? 3 : m > 1000 ? 1 : 2)) chosen.push_back(i); }
    for (int i : chosen) family(read(i));
}
#else
static void family(const Conf& c, int mexp, const std::function<G *()>& fresh) {
    string n = c.name + " " + to_string(c.p[0]) + "/" + to_string(c.p[1]);
    auto put = [&](const string& name, const std::function<string()>& f) { calcs.push_back({ name + " of " + n, f, "" }); };
    put("polynomial", [=] { P g(make(c)); GF2X p; minpoly<U>(p, *g); string r = poly(p); minpoly<U>(p, *g, 5); return r + " " + poly(p) + " " + win(*g, 4); });
    put("dimensions", [=] { P g(make(c)); vector<int> v(6); int d; { AlgorithmEquidistribution<U> e(*g, 6, mexp); d = e.get_all_equidist(&v[0]); } return to_string(d) + dims(v) + win(*g, 4); });
    put("reversed dimensions", [=] { P g(make(c)); rev(*g, true); vector<int> v(6); int d; { AlgorithmEquidistribution<U> e(*g, 6, mexp); d = e.get_all_equidist(&v[0]); } rev(*g, false); return to_string(d) + dims(v) + win(*g, 4); });
    put("tempering", [=] { P g(make(c)); AlgorithmPartialBitPattern<U, 32, 1, 4, 2> t; int d = t(*g, false); return to_string(d) + " " + g->getParamString() + win(*g, 4); });
    put("low tempering", [=] { P g(make(c)); AlgorithmPartialBitPattern<U, 32, 1, 3, 2, true> t; int d = t(*g, false); return to_string(d) + " " + g->getParamString() + win(*g, 4); });
    put("search", [=] { P g(fresh()); MersenneTwister mt(uint32_t(c.p[1]) + 3); AlgorithmPrimitivity p; AlgorithmRecursionSearch<U> s(*g, mt, p); string r; for (int t = 0; t < 2; t++) { bool ok = s.start(40); r += to_string(ok) + " " + to_string(s.getCount()) + " " + s.getParamString() + " "; if (ok) r += poly(s.getMinPoly()) + " "; } return r; });
}
static void make_all() {
    vector<Conf> all; size_t want = mc::g.thorough ? 6 : 3;
    for (auto& c : confs(true)) {
#if !defined(GEN_TINY)
        if (c.p[0] < 521 || c.p[0] > (mc::g.thorough ? 1300u : 600u)) continue;
#endif
        all.push_back(c);
    }
    for (size_t i = 0; i < all.size() && i < want; i++) {
        Conf c = all[all.size() <= want ? i : i * (all.size() - 1) / (want - 1)];
#if defined(GEN_TINY)
        family(c, 127, [=] { return new G(int(7 + i)); });
#elif defined(GEN_MTGP)
        family(c, int(c.p[0]), [=] { return new G(int(c.p[0]), int(9 + i)); });
#else
        family(c, int(c.p[0]), [=] { G *g = make(c); return g; });
#endif
    }
}
#endif
static string differs(size_t i, const string& s, const string& when) { return s == calcs[i].alone ? "" : calcs[i].name + " " + when + " gives " + s.substr(0, 200) + ", alone " + calcs[i].alone.substr(0, 200); }
void mc_main() {
    make_all();
    const size_t N = calcs.size(); bool have = false;
    auto quiet = [](const Calc& c) { mc::Quiet q; return shielded(c.f); };
    for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) {
        if (!mc::begin("procedures", i, j)) continue;
        if (!have) { have = true; for (auto& c : calcs) { c.alone = apart([&] { return quiet(c); }); mc::heartbeat = mc::heartbeat + 1; } }
        mc::nontrivial();
        if (i == j && (calcs[i].alone.compare(0, 4, "died") == 0 || calcs[i].alone.compare(0, 9, "exception") == 0)) mc::fail("alone", calcs[i].name + ": " + calcs[i].alone.substr(0, 200));
        string r = apart([&] {
            int n = 0; string e;
            for (size_t x : { i, j, i, j }) { if (n++ && e.empty()) e = differs(x, quiet(calcs[x]), "after " + calcs[x == i ? j : i].name); else if (n == 1) e = differs(x, quiet(calcs[x]), "again"); }
            return to_string(n) + "|" + e; });
        size_t b = r.find('|');
        if (b == string::npos || r.compare(0, 4, "died") == 0 || r.compare(0, 9, "exception") == 0) { mc::fail("procedures", "the run " + r.substr(0, 200)); continue; }
        mc::trans(4); mc::trace(4); mc::state();
        if (b + 1 < r.size()) mc::fail("procedures", r.substr(b + 1));
        if (mc::want_sample()) mc::sample(calcs[i].name + ": " + calcs[i].alone.substr(0, 120));
    }
}
