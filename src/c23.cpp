// C23: parameter sets made for an identifier, and the line printed for them.
// Every draw of a short stream is chosen, so all parameter sets of a family of
// draws and identifiers are made with the real setUpParam, printed, read back
// with an independent reader and compared with what was drawn, with the documented
// ranges and, by rebuilding a generator from the line alone, with the generator.
#include "mc.hpp"
#include "line.hpp"

static vector<uint64_t> words(int bits, bool pairs) {
    vector<uint64_t> r = {0}; uint64_t all = bits == 64 ? ~0ull : (1ull << bits) - 1;
    for (int i = 0; i < bits; i++) { r.push_back(1ull << i); r.push_back(all & ~(1ull << i)); }
    if (pairs) for (int i = 0; i < bits; i++) for (int j = i + 1; j < bits; j++) r.push_back(1ull << i | 1ull << j);
    for (int i = 0; i < 16; i++) r.push_back(mixk(1234 + i) & all);
    r.push_back(all);
    return r;
}

// ---- the classes --------------------------------------------------------------
struct Want { string name; int base; uint64_t v; };           // a field and the value it must show
#if defined(GEN_MT2)
enum { HASID = 1, IDBITS = 16, DRAWS = 2, DB = 32, TEMP = 2 };
static const vector<int> MEXPS = {89, 107, 127, 521, 607, 1279, 19937};
static G *mk(int mexp, uint64_t id) { return id & 1 ? new G(mexp, int(id), 1) : new G(mexp, int(id), 0, 0, 0, 0, 1); }
static string ranges(int mexp, Line& l) { int n = mexp / 32 + 1; return l.d("pos") < 2 || int(l.d("pos")) > n - 1 ? "pos " + l.f["pos"] + " outside 2.." + to_string(n - 1) : ""; }
static vector<Want> fixedw(int mexp, uint64_t id) { return {{"mexp", 10, uint64_t(mexp)}, {"id", 10, id}}; }
static vector<Want> reach(int mexp) { vector<Want> r; for (int i = 2; i < mexp / 32 + 1; i++) r.push_back({"pos", 10, uint64_t(i)}); return r; }
static string tname(int k) { return k == 0 ? "maskb" : "maskc"; }
#elif defined(GEN_MTGP)
enum { HASID = 1, IDBITS = 32, DRAWS = 5, DB = 32, TEMP = 4 };
static const vector<int> MEXPS = {521, 607, 1279, 3217, 11213, 23209};
#if defined(USE_SHA)
static string digest = "0123456789abcdef0123456789abcdef01234567";
static G *mk(int mexp, uint64_t id) { G *g = new G(mexp, uint32_t(id)); mtgp::mtgp_param<uint32_t> p = g->get_param(); p.set_sha1(digest); g->set_param(p); return g; }
#else
static G *mk(int mexp, uint64_t id) { return new G(mexp, uint32_t(id)); }
#endif
static int posmax(int mexp) { int n = mexp / 32 + 1, p = 1; if (n <= 100) return n / 2 - 1; while (2 * p <= n) p *= 2; return n - p - 1; }
static string ranges(int mexp, Line& l) {
#if defined(USE_SHA)
    if (l.f["sha1"] != '"' + digest + '"') return "digest " + l.f["sha1"];
#else
    if (l.f["sha1"] != "\"\"") return "digest " + l.f["sha1"];
#endif
    if (int(l.d("pos")) < 3 || int(l.d("pos")) > posmax(mexp)) return "pos " + l.f["pos"] + " outside 3.." + to_string(posmax(mexp));
    if (l.d("sh1") < 1 || l.d("sh1") > 31 || l.d("sh2") < 1 || l.d("sh2") > 31) return "shift outside the word";
    for (int i = 0; i < 4; i++) if ((l.h("tbl_" + to_string(i)) & 15) == 1u << i) return "tbl_" + to_string(i) + " loses bit " + to_string(i);
    return "";
}
static vector<Want> fixedw(int mexp, uint64_t id) { return {{"mexp", 10, uint64_t(mexp)}, {"id", 10, id}, {"mask", 16, uint32_t(~0ull << (32 * (mexp / 32 + 1) - mexp))}}; }
static vector<Want> reach(int mexp) { vector<Want> r; for (int i = 3; i <= posmax(mexp); i++) r.push_back({"pos", 10, uint64_t(i)}); return r; }
static string tname(int k) { return "tmp_" + to_string(k); }
#elif defined(GEN_TINY)
enum { HASID = 1, IDBITS = 32, DRAWS = 1, DB = 32, TEMP = 1 };
static const vector<int> MEXPS = {127};
static G *mk(int, uint64_t id) { G *g = new G(uint32_t(id)); return g; }
static string ranges(int, Line&) { return ""; }
static vector<Want> fixedw(int, uint64_t id) { return {{"id", 10, id}}; }
static vector<Want> reach(int) { return {}; }
static string tname(int) { return "tmat"; }
#elif defined(GEN_RMT)
enum { HASID = 0, IDBITS = 0, DRAWS = 2, DB = 64, TEMP = 2 };
static const vector<int> MEXPS = {127, 521, 607, 1279};
static G *mk(int mexp, uint64_t) { return new G(mexp, 1); }
static string ranges(int mexp, Line& l) { int n = mexp / 64 + 1; return int64_t(l.d("pos")) < 0 || int64_t(l.d("pos")) >= n ? "pos " + l.f["pos"] + " outside the state" : ""; }
static vector<Want> fixedw(int mexp, uint64_t) { return {{"mexp", 10, uint64_t(mexp)}}; }
static vector<Want> reach(int mexp) { vector<Want> r; for (int i = 0; i < mexp / 64 + 1; i++) r.push_back({"pos", 10, uint64_t(i)}); return r; }
static string tname(int k) { return k == 0 ? "maskb" : "maskc"; }
#elif defined(GEN_SFMT)
enum { HASID = 0, IDBITS = 0, DRAWS = 13, DB = 32, TEMP = 0 };
static const vector<int> MEXPS = {607, 1279, 2281, 19937};
static G *mk(int mexp, uint64_t) { return new G(mexp); }
static bool in(uint64_t x, int a, int b) { return x >= uint64_t(a) && x <= uint64_t(b); }
static string ranges(int mexp, Line& l) {
    int n = mexp / 128 + 1;
    if (!in(l.d("pos1"), 1, n - 2)) return "pos1 " + l.f["pos1"] + " outside 1.." + to_string(n - 2);
    if (!in(l.d("sl1"), 1, 31) || !in(l.d("sr1"), 1, 31)) return "32-bit shift of " + l.f["sl1"] + " or " + l.f["sr1"];
    if (!in(l.d("sl2"), 1, 7) || !in(l.d("sr2"), 1, 7) || l.d("sl2") % 2 == 0 || l.d("sr2") % 2 == 0) return "byte shift of " + l.f["sl2"] + " or " + l.f["sr2"];
    return "";
}
static vector<Want> fixedw(int mexp, uint64_t) { return {{"mexp", 10, uint64_t(mexp)}}; }
static vector<Want> reach(int mexp) {
    vector<Want> r; for (int i = 1; i < mexp / 128; i++) r.push_back({"pos1", 10, uint64_t(i)});
#if !defined(SFMT_PARAM_FIXED)
    for (uint64_t i = 1; i < 32; i++) { r.push_back({"sl1", 10, i}); r.push_back({"sr1", 10, i}); }
    for (uint64_t i = 1; i < 8; i += 2) { r.push_back({"sl2", 10, i}); r.push_back({"sr2", 10, i}); }
#endif
    return r;
}
static string tname(int) { return ""; }
#elif defined(GEN_DSFMT)
enum { HASID = 0, IDBITS = 0, DRAWS = 6, DB = 64, TEMP = 0 };
static const vector<int> MEXPS = {521, 1279, 2203, 19937};
static G *mk(int mexp, uint64_t) { return new G(mexp); }
static string ranges(int mexp, Line& l) {
    int n = (mexp - 128) / 104 + 1;
    if (l.d("pos1") < 1 || int(l.d("pos1")) > n - 2) return "pos1 " + l.f["pos1"] + " outside 1.." + to_string(n - 2);
    if (l.d("sl1") < 1 || l.d("sl1") > 51) return "sl1 " + l.f["sl1"];
    if (l.h("msk1") >> 52 || l.h("msk2") >> 52) return "mask of more than 52 bits";
    return "";
}
static vector<Want> fixedw(int mexp, uint64_t) { return {{"mexp", 10, uint64_t(mexp)}}; }
static vector<Want> reach(int mexp) {
    vector<Want> r; for (int i = 1; i <= (mexp - 128) / 104 - 1; i++) r.push_back({"pos1", 10, uint64_t(i)});
    for (uint64_t i = 1; i < 52; i++) r.push_back({"sl1", 10, i});
    return r;
}
static string tname(int) { return ""; }
#else
enum { HASID = 0, IDBITS = 0, DRAWS = 1, DB = 32, TEMP = 0 };
static const vector<int> MEXPS = {128};
static G *mk(int, uint64_t) { return new G(1); }
static string ranges(int, Line& l) { for (const char *k : {"a", "b", "c"}) if (l.d(k) > 31) return string("shift ") + k + " of " + l.f[k]; return ""; }
static vector<Want> fixedw(int, uint64_t) { return {}; }
static vector<Want> reach(int) {
    vector<Want> r; for (uint64_t i = 0; i < 32; i++) for (const char *k : {"a", "b", "c"}) r.push_back({k, 10, i});
#if GEN_XS == 4
    for (uint64_t i = 0; i < 8; i++) r.push_back({"pat", 10, i});
#endif
    return r;
}
static string tname(int) { return ""; }
#endif
// the bits of the fields that draws decide, the rest being fixed by the identifier or by the rules for tables
#if defined(GEN_MT2)
static const vector<Want> FREE = {{"mata", 16, 0xffff0000}};
#elif defined(GEN_MTGP)
static const vector<Want> FREE = {{"tbl_0", 16, 0xfffffffe}, {"tbl_1", 16, 0xfffffffd}, {"tbl_2", 16, 0xfff0000b}, {"tbl_3", 16, 0xfff7}};
#elif defined(GEN_TINY)
static const vector<Want> FREE = {{"mat1", 16, 0xffff1fff}, {"mat2", 16, 0xfff8fffe}};
#elif defined(GEN_RMT)
static const vector<Want> FREE = {{"mata", 16, ~0ull}};
#elif defined(GEN_SFMT)
static const vector<Want> FREE = {{"msk1", 16, 0xffffffff}, {"msk2", 16, 0xffffffff}, {"msk3", 16, 0xffffffff}, {"msk4", 16, 0xffffffff}};
#elif defined(GEN_DSFMT)
static const vector<Want> FREE = {{"msk1", 16, 0xfffffffffffff}, {"msk2", 16, 0xfffffffffffff}};
#else
static const vector<Want> FREE;
#endif
// the classes whose pattern and shift setters can be reached: the tempering of a set
template<class X> static auto temper(X& g, int k, uint64_t v, int) -> decltype(g.setTemperingPattern(~U(0), U(v), k)) { g.setTemperingPattern(~U(0), U(v), k); g.setUpTempering(); }
template<class X> static void temper(X&, int, uint64_t, long) {}
template<class X> static auto parity(X& g, uint64_t v, int) -> decltype(g.setParityValue(U())) {
#if defined(GEN_SFMT) || defined(GEN_DSFMT)
    g.setParityValue(wseed(v));
#else
    g.setParityValue(U(v));
#endif
}
template<class X> static void parity(X&, uint64_t, long) {}

static bool bad(const char *key, const string& m) { mc::fail(key, m); return false; }
// one parameter set: make it, print it, read it, rebuild it
static bool one(int mexp, uint64_t id, const vector<uint64_t>& draws, uint64_t tv, bool win, Line *keep = 0) {
    std::unique_ptr<G> g(mk(mexp, id));
    ListPG<MTToolBox::ParameterGenerator> pg(draws);
    g->setUpParam(pg);
    mc::trans();
    string what = "mexp " + to_string(mexp) + " id " + to_string(int64_t(id)) + " draws " + join(draws);
    vector<Want> w = fixedw(mexp, id);
    { Line l0(g->getHeaderString(), g->getParamString()); idof(l0); if (!l0.err.empty()) return bad("line", what + ": " + l0.err); }
    for (int k = 0; k < TEMP; k++) { uint64_t v = mixk(tv + 10 * k); if (DB == 32) v &= 0xffffffff; if (tv < 64) v = 1ull << ((tv + k) % DB); temper(*g, k, v, 0);
#if defined(GEN_RMT)
        v = k == 0 ? v >> 17 << 17 : v >> 37 << 37;       // the bits the shifts leave
#endif
        w.push_back({tname(k), 16, v}); }
    seedk(*g, 1 + tv);
    uint64_t pv = mixk(77 + tv); Row before, after;
#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
    parity(*g, pv, 0);
#if defined(GEN_RMT)
    w.push_back({"parity", 16, pv});
#elif defined(GEN_SFMT)
    for (int i = 0; i < 4; i++) w.push_back({"parity" + to_string(i + 1), 16, wseed(pv).u[i]});
#else
    for (int i = 0; i < 2; i++) w.push_back({"parity" + to_string(i + 1), 16, wseed(pv).u64[i]});
#endif
#endif
    if (win) before = window(*g, 2 * nwords(conf(*std::unique_ptr<Line>(new Line(g->getHeaderString(), g->getParamString())))) / WPR + 4);
    string s = g->getParamString();
    Line l(g->getHeaderString(), s);
    for (auto& x : w) { uint64_t v = l.num(x.name, x.base); if (l.err.empty() && v != x.v) return bad("value", what + ": field " + x.name + " of \"" + s + "\" is not " + (x.base == 16 ? mc::hex(x.v) : to_string(int64_t(x.v)))); }
    string r = ranges(mexp, l);
    if (!l.err.empty()) return bad("line", what + ": " + l.err + " in \"" + s + "\"");
    if (!r.empty()) return bad("range", what + ": " + r);
    if (HASID && int64_t(id) >= 0 && idof(l) != id) return bad("id", what + ": the parameters carry identifier " + to_string(idof(l)));
    if (g->getParamString() != s) return bad("again", what + ": printed again, the line changes");
    { std::unique_ptr<G> c(cl(*g)); if (c->getParamString() != s || c->getHeaderString() != g->getHeaderString()) return bad("copy", what + ": a copy prints \"" + c->getParamString() + "\", not \"" + s + "\""); }
    if (win) {
        after = window(*g, int(before.size()) / WPR);
        if (before != after) return bad("effect", what + ": printing changed the generator");
        Conf c = conf(l); if (!l.err.empty()) return bad("line", what + ": " + l.err);
        std::unique_ptr<G> t(make(c)); seedk(*t, 1 + tv);
#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
        parity(*t, pv, 0);
#endif
        Row rr = window(*t, int(before.size()) / WPR);
        if (rr != before) return bad("rebuild", what + ": the generator rebuilt from \"" + s + "\" differs: " + diff(before, rr));
        mc::trace();
    }
    if (keep) *keep = l;
    mc::state();
    return true;
}
#ifdef GEN_XS
enum { GEN_SHIFT = 5 };            // fields side by side in one draw
#else
enum { GEN_SHIFT = 64 };
#endif
#ifdef GEN_TINY
enum { SPREAD = 1 };
#else
enum { SPREAD = 0 };
#endif
static vector<uint64_t> draws(uint64_t t) { vector<uint64_t> d; for (int i = 0; i < DRAWS; i++) d.push_back(DB == 32 ? uint32_t(mixk(500 + 31 * t + i)) : mixk(500 + 31 * t + i)); return d; }
void mc_main() {
    bool T = mc::g.thorough; mc::Quiet q;
    // 1. every one-word draw of a family at every position of the stream, the others zero, dense or all ones
    for (int mexp : MEXPS) for (int pos = 0; pos < DRAWS; pos++) for (int base = 0; base < 4; base++) {
        vector<uint64_t> ws = words(DB, T || mexp < 700);
        for (size_t b = 0; b < ws.size(); b += 32) {
            if (!mc::begin("draws", mexp, pos, base, long(b))) continue;
            mc::nontrivial();
            for (size_t i = b; i < ws.size() && i < b + 32; i++) {
                vector<uint64_t> d(DRAWS, 0); if (base == 1) d.assign(DRAWS, DB == 32 ? 0xffffffff : ~0ull); if (base >= 2) d = draws(base);
                d[pos] = ws[i];
                if (!one(mexp, HASID ? uint16_t(mixk(i)) : 0, d, i * 5 + base, mexp < 1300 && i % 4 == 0)) break;
            }
            if (mc::want_sample()) mc::sample(mc::describe());
        }
    }
    // 2. identifiers
    if (HASID) for (int mexp : MEXPS) for (int t = 0; t < (T ? 12 : 3); t++) {
        if (mexp > 1300 && t > 1) continue;
        vector<uint64_t> ids;
        if (IDBITS == 16) { for (uint64_t i = 0; i < 65536; i++) ids.push_back(i); ids.push_back(~0ull); }
        else { ids = words(32, true); for (uint64_t i = 0; i < 65536; i += mexp < 700 ? 1 : 41) { ids.push_back(i); ids.push_back(i << 16); ids.push_back(i << 16 ^ mixk(i) % 65536); } }
        for (size_t b = 0; b < ids.size(); b += 2048) {
            if (!mc::begin("ids", mexp, t, long(b))) continue;
            mc::nontrivial();
            for (size_t i = b; i < ids.size() && i < b + 2048; i++) if (!one(mexp, ids[i], draws(100 + t), i, mexp < 200 && i % 64 == 0)) break;
        }
    }
    // 3. every value of every range can be drawn
    for (int mexp : MEXPS) {
        if (!mc::begin("reach", mexp)) continue;
        mc::nontrivial();
        vector<Want> w = reach(mexp); std::set<string> seen; int N = 0;
        for (auto& x : w) N = std::max(N, int(x.v) + 2);
        for (int pos = 0; pos < DRAWS; pos++) for (int v = 0; v < 2 * N; v++) for (int sh = 0; sh < DB; sh += GEN_SHIFT) {
            vector<uint64_t> d(DRAWS, 0); d[pos] = uint64_t(v) << sh; Line l("", "");
            if (!one(mexp, 1, d, 1, false, &l)) return;
            for (auto& k : l.f) seen.insert(k.first + "=" + k.second);
        }
        std::map<string, uint64_t> one1, zero1;
        for (int pos = -1; pos < DRAWS; pos++) for (int b = 0; b < DB; b++) {
            vector<uint64_t> d(DRAWS, 0); if (pos >= 0) d[pos] = 1ull << b; Line l("", "");
            if (!one(mexp, 0, d, 1, false, &l)) return;
            for (auto& w : FREE) { uint64_t v = l.h(w.name); if (l.err.empty()) { one1[w.name] |= v; zero1[w.name] |= ~v; } l.err.clear(); }
        }
        for (auto& w : FREE) if (~(one1[w.name] & zero1[w.name]) & w.v) { bad("reach", "mexp " + to_string(mexp) + ": a bit of " + w.name + " is the same for all draws, free bits " + mc::hex(one1[w.name] & zero1[w.name])); break; }
        // no two free bits are tied to each other: all four combinations occur
        vector<std::pair<string, int>> fb; for (auto& w : FREE) for (int b = 0; b < 64; b++) if (w.v >> b & 1) fb.push_back({w.name, b});
        const int NB = int(fb.size()), ND = 640; vector<vector<uint64_t>> col(NB, vector<uint64_t>(ND / 64));
        for (int t = 0; t < ND && NB; t++) {
            vector<uint64_t> d = draws(9000 + t); if (t & 1) { vector<uint64_t> e = draws(29000 + t); for (int i = 0; i < DRAWS; i++) d[i] &= e[i]; }
            Line l("", ""); if (!one(mexp, 0, d, 1, false, &l)) return;
            for (int i = 0; i < NB; i++) if (l.h(fb[i].first) >> fb[i].second & 1) col[i][t / 64] |= 1ull << (t % 64);
        }
        bool tied = SPREAD;          // TinyMT spreads one draw over both words
        for (int i = 0; i < NB && !tied; i++) for (int j = 0; j < i && !tied; j++) {
            uint64_t c[4] = {0, 0, 0, 0}; for (int k = 0; k < ND / 64; k++) { uint64_t x = col[i][k], y = col[j][k]; c[0] |= x & y; c[1] |= x & ~y; c[2] |= ~x & y; c[3] |= ~x & ~y; }
            if (!c[0] || !c[1] || !c[2] || !c[3]) { tied = true; bad("tied", "mexp " + to_string(mexp) + ": bit " + to_string(fb[i].second) + " of " + fb[i].first + " depends on bit " + to_string(fb[j].second) + " of " + fb[j].first + " for all draws"); }
        }
        mc::count("bit_pairs", NB * (NB - 1) / 2);
        for (auto& x : w) if (!seen.count(x.name + "=" + to_string(x.v))) { bad("reach", "mexp " + to_string(mexp) + ": no draw gives " + x.name + "=" + to_string(x.v)); break; }
        mc::count("range_values", w.size()); mc::trace();
    }
    // 4. different draws in one run: the line of an object drawn twice is the line of the second draw
    for (int mexp : MEXPS) for (int t = 0; t < 40; t++) {
        if (!mc::begin("redraw", mexp, t)) continue;
        mc::nontrivial();
        std::unique_ptr<G> g(mk(mexp, 9)), h(mk(mexp, 9)); ListPG<MTToolBox::ParameterGenerator> a(draws(t)), b(draws(t + 41)), c(draws(t + 41));
        g->setUpParam(a); if (t & 1) { seedk(*g, 5); window(*g, 9); g->getParamString(); } g->setUpParam(b); h->setUpParam(c);
        if (g->getParamString() != h->getParamString()) bad("redraw", "drawn again, \"" + g->getParamString() + "\", a new object \"" + h->getParamString() + "\"");
        mc::state(2); mc::trace();
    }
#if defined(GEN_XS)
    // every draw gives its own set of shifts
    if (mc::begin("all")) {
        mc::nontrivial();
        std::map<string, uint64_t> seen;
        for (uint64_t r = 0; r < (GEN_XS == 4 ? 1u << 18 : 1u << 15); r++) {
            Line l("", "");
            if (!one(128, 0, {r}, r, r % 64 == 0, &l)) break;
            string k = (l.f.count("pat") ? l.f["pat"] + ":" : "") + l.f["a"] + ":" + l.f["b"] + ":" + l.f["c"];
            if (!seen.emplace(k, r).second) { bad("twice", "draws " + to_string(seen[k]) + " and " + to_string(r) + " both give " + k); break; }
        }
    }
#endif
#if defined(USE_SHA)
    if (mc::begin("sha")) {
        mc::nontrivial(); mc::state(4); mc::trace();
        NTL::GF2X p; string d;
        MTToolBox::poly_sha1(d, p); if (d != "7984b0a0e139cabadb5afc7756d473fb34d23819") bad("sha", "digest of 0 is " + d);
        SetCoeff(p, 0); MTToolBox::poly_sha1(d, p); if (d != "356a192b7913b04c54574d18c28d46e6395428ab") bad("sha", "digest of 1 is " + d);
        SetCoeff(p, 2); MTToolBox::poly_sha1(d, p); if (d != "dbc0f004854457f59fb16ab863a3a1722cef553f") bad("sha", "digest of t^2+1 is " + d);
    }
#endif
#if defined(GEN_DSFMT)
    // the shift fixed by the user
    for (int mexp : MEXPS) for (int v = 1; v < 52; v++) {
        if (!mc::begin("fixed", mexp, v)) continue;
        mc::nontrivial();
        std::unique_ptr<G> g(mk(mexp, 0)); g->setFixed(true); g->setFixedSL1(v);
        ListPG<MTToolBox::ParameterGenerator> a(draws(uint64_t(v))); g->setUpParam(a);
        Line l(g->getHeaderString(), g->getParamString());
        if (int(l.d("sl1")) != v || !l.err.empty()) bad("fixed", "fixed shift " + to_string(v) + " gives \"" + g->getParamString() + "\"");
        string r = ranges(mexp, l); if (!r.empty()) bad("range", r);
        std::unique_ptr<G> c(cl(*g)); ListPG<MTToolBox::ParameterGenerator> b(draws(7)); c->setUpParam(b);
        Line k(c->getHeaderString(), c->getParamString()); if (int(k.d("sl1")) != v) bad("fixed", "a copy forgets the fixed shift " + to_string(v));
        mc::state(); mc::trace();
    }
#endif
    // 5. field by field: every one-bit value, the other fields dense
#if defined(GEN_SFMT) || defined(GEN_DSFMT) || defined(GEN_TINY) || defined(GEN_MTGP)
#if defined(GEN_SFMT)
    typedef MTToolBox::sfmt_param P; struct F { const char *n; int base; int P::*i; uint32_t P::*u; };
    static const F fs[] = { {"mexp", 10, &P::mexp, 0}, {"pos1", 10, &P::pos1, 0}, {"sl1", 10, &P::sl1, 0}, {"sl2", 10, &P::sl2, 0}, {"sr1", 10, &P::sr1, 0}, {"sr2", 10, &P::sr2, 0},
        {"msk1", 16, 0, &P::msk1}, {"msk2", 16, 0, &P::msk2}, {"msk3", 16, 0, &P::msk3}, {"msk4", 16, 0, &P::msk4}, {"parity1", 16, 0, &P::parity1}, {"parity2", 16, 0, &P::parity2}, {"parity3", 16, 0, &P::parity3}, {"parity4", 16, 0, &P::parity4} };
    auto hd = [](P& p) { return p.get_header(); }; auto st = [](P& p) { return p.get_string(); };
#elif defined(GEN_DSFMT)
    typedef MTToolBox::dSFMT_param P; struct F { const char *n; int base; int P::*i; uint64_t P::*u; };
    static const F fs[] = { {"mexp", 10, &P::mexp, 0}, {"pos1", 10, &P::pos1, 0}, {"sl1", 10, &P::sl1, 0}, {"msk1", 16, 0, &P::msk1}, {"msk2", 16, 0, &P::msk2}, {"fix1", 16, 0, &P::fix1}, {"fix2", 16, 0, &P::fix2}, {"parity1", 16, 0, &P::parity1}, {"parity2", 16, 0, &P::parity2} };
    auto hd = [](P& p) { return p.get_header(); }; auto st = [](P& p) { return p.get_string(); };
#elif defined(GEN_TINY)
    typedef tinymt::tinymt32_param P; struct F { const char *n; int base; int P::*i; uint32_t P::*u; };
    static const F fs[] = { {"id", 10, 0, &P::id}, {"mat1", 16, 0, &P::mat1}, {"mat2", 16, 0, &P::mat2}, {"tmat", 16, 0, &P::tmat} };
    auto hd = [](P& p) { return p.getHeaderString(); }; auto st = [](P& p) { return p.getParamString(); };
#else
    typedef mtgp::mtgp_param<uint32_t> P; struct F { const char *n; int base; int P::*i; uint32_t P::*u; int tbl, tmp; };
    static const F fs[] = { {"mexp", 10, &P::mexp, 0, -1, -1}, {"pos", 10, &P::pos, 0, -1, -1}, {"sh1", 10, &P::sh1, 0, -1, -1}, {"sh2", 10, &P::sh2, 0, -1, -1}, {"id", 10, 0, &P::id, -1, -1}, {"mask", 16, 0, &P::mask, -1, -1},
        {"tbl_0", 16, 0, 0, 0, -1}, {"tbl_1", 16, 0, 0, 1, -1}, {"tbl_2", 16, 0, 0, 2, -1}, {"tbl_3", 16, 0, 0, 3, -1}, {"tmp_0", 16, 0, 0, -1, 0}, {"tmp_1", 16, 0, 0, -1, 1}, {"tmp_2", 16, 0, 0, -1, 2}, {"tmp_3", 16, 0, 0, -1, 3} };
    auto hd = [](P& p) { return p.getHeaderString(); }; auto st = [](P& p) { return p.getParamString(); };
#endif
    const int n = int(sizeof fs / sizeof fs[0]);
    auto set = [&](P& p, int k, uint64_t v) {
        if (fs[k].i) p.*(fs[k].i) = int(v); else if (fs[k].u) p.*(fs[k].u) = std::remove_reference<decltype(p.*(fs[k].u))>::type(v);
#if defined(GEN_MTGP)
        else if (fs[k].tbl >= 0) p.tbl[fs[k].tbl] = uint32_t(v); else p.tmp_tbl[fs[k].tmp] = uint32_t(v);
#endif
    };
#if defined(GEN_DSFMT)
    const int ub = 64;
#else
    const int ub = 32;
#endif
    for (int k = 0; k < n; k++) for (int b = -1; b < ub; b++) for (int other = 0; other < 3; other++) {
        if (fs[k].i && b > 30) continue;
        if (!mc::begin("field", k, b, other)) continue;
        mc::nontrivial();
        P p; vector<uint64_t> want(n);
        for (int j = 0; j < n; j++) {
            want[j] = other == 0 ? 0 : mixk(j + 100 * other) >> (fs[j].i ? 40 : 64 - ub);
            if (j == k) want[j] = b < 0 ? 0 : 1ull << b;
            set(p, j, want[j]);
        }
        P cp(p), as; as = p;
        int which = 0;
        for (P *x : {&p, &cp, &as}) {
            Line l(hd(*x), st(*x)); const char *nm[] = {"the line", "the line of a copy", "the line of an assigned one"};
            for (int j = 0; j < n; j++) { uint64_t v = l.num(fs[j].n, fs[j].base); if (!l.err.empty()) { bad("line", l.err + " in \"" + st(*x) + "\""); break; } if (v != want[j]) { bad("field", string(nm[which]) + ": " + fs[j].n + " is not " + (fs[j].base == 16 ? mc::hex(want[j]) : to_string(want[j])) + " in \"" + st(*x) + "\""); break; } }
            which++; mc::trans();
        }
#if defined(GEN_MTGP)
        if (!p.equals(cp)) bad("equals", "a copy is not equal to its original");
        for (int j = 0; j < n; j++) { P o(p); set(o, j, want[j] ^ 1); if (p.equals(o) || o.equals(p)) { bad("equals", string("sets that differ in ") + fs[j].n + " are equal"); break; } }
#endif
        mc::state(); mc::trace();
    }
#endif
}
