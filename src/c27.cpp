// C27: the programs that examine a given parameter set.  Each is run as a process on sets made by
// the creators, on published ones, and on every set one field away; what it reports is compared
// with what the published recurrence gives.
#include "mc.hpp"
#if (CALC >= 7 && CALC < 10) || CALC == 13 || CALC == 15
#define ARGLESS
#endif
#if CALC != 9 && CALC != 13 && CALC != 15
#include "figures.hpp"
#else
#include <NTL/GF2XFactoring.h>
using std::string; using std::vector; using std::to_string;
#endif
#if CALC == 11 || CALC == 12 || CALC == 15
#include PROG
#define sample_main main
#elif defined(PROG)
#define main sample_main
#include PROG
#undef main
#endif
#include "prog.hpp"
using prog::Out;
typedef vector<string> Args;
static bool bad(const char *key, const string& m) { mc::fail(key, m); return false; }
// CALC: 1 RMT equidistribution, 2 RMT period, 3 SFMT equidistribution, 4 SFMT period,
//       5 dSFMT equidistribution, 6 fixed point (61: parity), 7 mt1, 8 xorshift equidistribution, 9 xorshift period,
//       11 SFMT, 12 dSFMT, 13 MTGP linearity, 14 dSFMT in the old format, 15 xorshift128's outputs

// lines "k(v) = x <tab> d(v) = y", or "k( v): x  d( v): y"
struct K { int v; long k, w, d; };
static bool kline(const string& s, K& k) {
    if (sscanf(s.c_str(), " k( %d ) = %ld d( %ld ) = %ld", &k.v, &k.k, &k.w, &k.d) == 4) return true;
    return sscanf(s.c_str(), " k( %d ): %ld d( %ld ): %ld", &k.v, &k.k, &k.w, &k.d) == 4;
}
static vector<K> klines(const string& s) { vector<K> r; K k; for (auto& l : prog::lines(s)) if (kline(l, k)) r.push_back(k); return r; }
static bool table(const string& what, vector<K>::const_iterator it, int mexp, const vector<int>& want) {
    for (int v = 1; v <= int(want.size()); v++, ++it) {
        if (it->v != v || it->w != v) return bad("table", what + ": the line for accuracy " + to_string(v) + " is labelled " + to_string(it->v) + " and " + to_string(it->w));
        if (it->k != want[v - 1]) return bad("k", what + ": k(" + to_string(v) + ") is " + to_string(want[v - 1]) + ", reported " + to_string(it->k));
        if (it->d != mexp / v - want[v - 1]) return bad("d", what + ": d(" + to_string(v) + ") is " + to_string(mexp / v - want[v - 1]) + ", reported " + to_string(it->d));
    }
    return true;
}
#if CALC < 7 || CALC == 61 || CALC == 11 || CALC == 12 || CALC == 14
static const char *sets[] = {
#include "c27_sets.inc"
};
#if defined(GEN_RMT)
static const char *HEAD = "mexp,pos,mata,parity,maskb,maskc";
static int given(const Args&) { return 6; }
static vector<const char *> deltas() { return {"delta"}; }
#elif defined(GEN_SFMT)
static const char *HEAD = "mexp,pos1,sl1,sl2,sr1,sr2,msk1,msk2,msk3,msk4,parity1,parity2,parity3,parity4";
static int given(const Args&) { return CALC == 61 ? 10 : 14; }
static vector<const char *> deltas() { return {"delta32", "delta64", "delta128"}; }
#else
static const char *HEAD = "mexp,pos1,sl1,msk1,msk2,fix1,fix2,parity1,parity2";
static int given(const Args&) { return CALC == 6 ? 5 : CALC == 61 ? 7 : 9; }
static vector<const char *> deltas() { return {"delta52"}; }
#endif
static bool dec(const string& f) { return f == "mexp" || f.compare(0, 3, "pos") == 0 || (f[0] == 's' && f != "seed"); }
// the value of field i of a line
static uint64_t val(const string& f, const string& v) { return strtoull(v.c_str(), 0, dec(f) ? 10 : 16); }
static string name = PROG;
#if CALC == 11 || CALC == 12
struct Truth { struct { string err; } s; Truth(const string&, bool) { } };
#else
struct Truth { fig::Set s; vector<vector<int>> k; Row fix; bool rev;
    Truth(const string& line, bool r) : s(conf(*std::unique_ptr<Line>(new Line(HEAD, line))), atoi(line.c_str())), rev(r) {
        if (!s.err.empty()) return;
#if CALC == 1
        k = { fig::kv(s, fig::plain(), 64) };
#elif CALC == 3
        k = { fig::kv(s, {4, 32, 31, r}, 32), fig::kv(s, {2, 64, 63, r}, 64), fig::kv(s, {1, 128, 127, r}, 128) };
#elif CALC == 5
        k = { fig::kv(s, {2, 52, 51, r}, 52) };
#elif CALC == 6
        fix = fig::fixpoint(s);
#endif
    }
};
#endif
#if CALC == 14
// a polynomial as printed: its coefficients, the constant first, 32 to a line
static string binary(const NTL::GF2X& p) { string s; for (long i = 0; i <= deg(p); i++) { s += IsOne(coeff(p, i)) ? "1" : "0"; if (i % 32 == 31) s += "\n"; } return s + "deg=" + to_string(deg(p)) + "\n"; }
#endif
#if CALC >= 10 && CALC < 20
// the programs that accept any set: linearity holds for all of them
static bool examine(const Args& opts, const string& line, const Truth& t) {
    Args a = opts; a.push_back(line); string what = name + prog::show(a); (void)t;
#if CALC == 14
    if (!t.s.err.empty()) { mc::count("sets without the factor"); return true; }
#endif
    Out o = prog::run(a); mc::state(); mc::count("sets examined");
    if (o.died || o.rc) return bad("status", what + ": ended with status " + to_string(o.rc) + " " + o.err.substr(0, 100));
    vector<string> h = split(HEAD, true), in = split(line, true);
#if CALC == 14
    static const char *label[] = {"mexp", "pos1", "sl1", "msk1", "msk2", "fix1", "fix2", "pcv1", "pcv2"};
    for (int i = 0; i < 9; i++) {
        string want = string(label[i]) + " = ", got; size_t k = o.out.find(want); if (k == string::npos) return bad("line", what + ": no " + want);
        got = o.out.substr(k + want.size()); got = got.substr(0, got.find_first_of(",\n"));
        if (val(h[i], got) != val(h[i], in[i])) return bad("line", what + ": " + h[i] + " is " + in[i] + ", printed " + got);
    }
    int md = -1; size_t k = o.out.find("maxdegree = "); if (k != string::npos) md = atoi(o.out.c_str() + k + 12);
    if (md != ((t.s.mexp - 128) / 104 + 1) * 104 + 128) return bad("size", what + ": maxdegree " + to_string(md) + " reported");
    // the factor, and the minimal polynomial of the whole recurrence
    string f = binary(t.s.f); size_t at = o.out.find(f);
    if (at == string::npos) return bad("factor", what + ": the factor of degree " + to_string(t.s.mexp) + " is not what is printed");
    NTL::GF2X l; long d = 0; at += f.size();
    while (at < o.out.size() && strchr("01\n", o.out[at])) { char ch = o.out[at++]; if (ch != '\n') { if (ch == '1') SetCoeff(l, d); d++; } }
    if (o.out.substr(at) != "deg=" + to_string(deg(l)) + "\n" || deg(l) != d - 1) return bad("line", what + ": a polynomial of degree " + to_string(deg(l)) + " is printed with " + o.out.substr(at));
    if (l != Model(t.s.c).minimal()) return bad("lcm", what + ": the polynomial printed, of degree " + to_string(deg(l)) + ", is not the minimal polynomial of the recurrence");
#else
    vector<string> ps = prog::params(o.out);
    if (ps.size() != 1) return bad("line", what + ": " + to_string(ps.size()) + " parameter lines");
    vector<string> out = split(ps[0], true);
    for (size_t i = 0; i < h.size(); i++) if (out.size() != h.size() || val(h[i], in[i]) != val(h[i], out[i])) return bad("line", what + ": printed " + ps[0]);
    if (o.out.find("Linearity Test OK") == string::npos || o.out.find("fail") != string::npos) return bad("linear", what + ": not found linear");
#endif
    if (mc::want_sample()) mc::sample(what);
    mc::trace(); return true;
}
#else
// run the program and compare
static bool examine(const Args& opts, const string& line, const Truth& t) {
    Args a = opts; a.push_back(line); string what = name + prog::show(a); int mexp = t.s.mexp;
    Out o = prog::run(a); mc::state();
    if (o.died) return bad("died", what + ": died with signal " + to_string(-o.rc));
    vector<K> ks = klines(o.out); bool period = o.out.find("period >=") != string::npos, ok = t.s.err.empty();
    vector<string> ps; size_t n = split(HEAD, true).size();
    for (auto& p : prog::params(o.out)) { size_t m = split(p, true).size(); if (m == n || m == n + deltas().size()) ps.push_back(p); }
    bool verbose = std::count(opts.begin(), opts.end(), "-v") || std::count(opts.begin(), opts.end(), "--verbose") || CALC == 1;
    if (!ok) {
        mc::count("sets without the factor");
        bool figures = period || !ks.empty() || (CALC != 2 && CALC != 4 && !ps.empty()) || o.out.find("start_mode") != string::npos;
        if (figures) return bad("refuse", what + ": figures are reported, but " + t.s.err);
        if (o.rc == 0 && CALC != 6 && CALC != 61) return bad("refuse", what + ": ends in success, but " + t.s.err);
        mc::trace(); return true;
    }
    mc::count("sets examined");
    if (o.rc) return bad("status", what + ": ends with status " + to_string(o.rc) + " " + o.out.substr(0, 100) + o.err.substr(0, 100));
    if (ps.size() != 1) return bad("line", what + ": " + to_string(ps.size()) + " parameter lines");
    vector<string> h = split(HEAD, true), in = split(line, true), out = split(ps[0], true);
    bool withd = CALC == 1 || CALC == 3 || CALC == 5;
    if (out.size() != n + (withd ? deltas().size() : 0)) return bad("line", what + ": \"" + ps[0] + "\" has " + to_string(out.size()) + " fields");
    for (int i = 0; i < given(a); i++) if (val(h[i], in[i]) != val(h[i], out[i])) return bad("line", what + ": " + h[i] + " is " + in[i] + ", printed " + out[i]);
#if CALC == 1 || CALC == 3 || CALC == 5
    for (size_t i = 0; i < t.k.size(); i++) { int d = fig::defect(mexp, t.k[i]); if (out[n + i] != to_string(d)) return bad("delta", what + ": " + deltas()[i] + " is " + to_string(d) + ", reported " + out[n + i]); }
    size_t all = 0; for (auto& k : t.k) all += k.size();
    if (ks.size() != (verbose ? all : 0)) return bad("table", what + ": " + to_string(ks.size()) + " lines of dimensions");
    auto it = ks.begin(); if (verbose) for (auto& k : t.k) { if (!table(what, it, mexp, k)) return false; it += k.size(); }
#elif CALC == 2
    int d = -1, p = -1; for (auto& l : prog::lines(o.out)) { sscanf(l.c_str(), "deg irreducible = %d", &d); sscanf(l.c_str(), "period >= 2^%d-1", &p); }
    if (d != mexp || p != mexp) return bad("period", what + ": degree " + to_string(d) + ", period 2^" + to_string(p) + "-1 reported");
#elif CALC == 4
    std::set<std::pair<int, int>> seen; int low = mexp;       // bits of the output that the component never sets
    for (int b = 0; b < 128; b++) {
#if defined(GEN_DSFMT)
        if (b % 64 >= 52 || b >= 104) continue;
#endif
        bool any = false; for (long i = 0; i < mexp && !any; i++) any = fig::bit(t.s.part, i, b); if (!any) low = 0;
    }
    // the sequence the simple initialization starts: the degrees of the recurrences of its bits
    struct First { int least, most; long heavy; };
    auto from = [&](uint64_t lo, uint64_t hi) {
        First f = { 1 << 30, -1, -1 };
        std::unique_ptr<G> g(make(t.s.c)); MTToolBox::w128_t one; one.u64[0] = lo; one.u64[1] = hi; g->seed(one);
        long n = g->bitSize(); Row o2 = window(*g, int(2 * n));
        for (int b = 0; b < 128; b++) {
#if defined(GEN_DSFMT)
            if (b % 64 >= 52 || b >= 104) continue;
#endif
            NTL::Vec<NTL::GF2> v; v.SetLength(2 * n); for (long i = 0; i < 2 * n; i++) v[i] = long(fig::bit(o2, i, b));
            NTL::GF2X m; MinPolySeq(m, v, n); int d = int(deg(m));
            f.least = std::min(f.least, d); if (d > f.most) { f.most = d; f.heavy = NTL::weight(m); }
        }
        return f;
    };
    First want = from(1, 0), said = { 0, 0, want.heavy };
    int first = 0, weights = 0;
    for (auto& l : prog::lines(o.out)) {
        int s, w, lo, hi; long hw;
        if (sscanf(l.c_str(), "start_mode = %d weight_mode = %d min = %d max = %d", &s, &w, &lo, &hi) == 4) {
            if (lo != low || hi != mexp || !seen.insert({s, w}).second) return bad("period", what + ": \"" + l + "\"");
        } else if (sscanf(l.c_str(), "berore anni min = %d max = %d", &lo, &hi) == 2) { first++; said.least = lo; said.most = hi; }
        else if (sscanf(l.c_str(), "max weight = %ld", &hw) == 1) { weights++; said.heavy = hw; }
    }
    auto same = [&](const First& f) { return f.least == said.least && f.most == said.most && f.heavy == said.heavy; };
    auto show = [&](const First& f) { return to_string(f.least) + " to " + to_string(f.most) + ", weight " + to_string(f.heavy); };
    if (first != 1) return bad("period", what + ": " + to_string(first) + " lines for the whole recurrence");
    if (!same(want)) {
#if defined(GEN_SFMT)
        want = from(0xfefefefe00000001ull, 0xfefefefefefefefeull);      // what memory holds here when it was not set
        if (same(want)) bad("seedword", what + ": the degrees of the whole recurrence are those of a seed of which only the lowest word was set");
        else
#endif
        return bad("period", what + ": the whole recurrence is reported to have degrees " + show(said) + ", it has " + show(want));
    }
#if defined(GEN_SFMT)
    if (weights != 1) return bad("weight", what + ": " + to_string(weights) + " weights reported");
#endif
    (void)weights;
#if defined(GEN_DSFMT)
    if (seen.size() != 4) return bad("period", what + ": " + to_string(seen.size()) + " modes reported");
#else
    if (seen.size() != 16) return bad("period", what + ": " + to_string(seen.size()) + " modes reported");
#endif
#elif CALC == 6
    uint64_t f1 = val("fix1", out[5]), f2 = val("fix2", out[6]);
    if (f1 != t.fix[0] || f2 != t.fix[1]) return bad("fixpoint", what + ": the fixed point is " + mc::hex(t.fix[0]) + "," + mc::hex(t.fix[1]) + ", reported " + out[5] + "," + out[6]);
    if (std::count(opts.begin(), opts.end(), "-c")) {
        uint64_t g1 = 0, g2 = 0; int got = 0; long md = -1, mx = -1;
        for (auto& l : prog::lines(o.out)) { got += sscanf(l.c_str(), "fix1 = %lx", &g1) + sscanf(l.c_str(), "fix2 = %lx", &g2); sscanf(l.c_str(), "mexp = %ld, maxdegree = %ld", &md, &mx); }
        if (got < 2 || g1 != f1 || g2 != f2) return bad("fixpoint", what + ": fix1 = " + mc::hex(g1) + " fix2 = " + mc::hex(g2) + " reported");
        if (md != mexp || mx != ((mexp - 128) / 104 + 1) * 104 + 128) return bad("size", what + ": mexp " + to_string(md) + " and maxdegree " + to_string(mx) + " reported");
    }
#elif CALC == 61
    Row pv;
#if defined(GEN_SFMT)
    for (int i = 0; i < 4; i += 2) pv.push_back(val("parity1", out[10 + i]) | val("parity1", out[11 + i]) << 32);
#else
    pv = {val("parity1", out[7]), val("parity2", out[8])};
#endif
    string e = fig::parity(t.s, pv); if (!e.empty()) return bad("parity", what + ": " + ps[0] + ": " + e);
    if (std::count(opts.begin(), opts.end(), "-c") && o.out.find("100 / 100") == string::npos) return bad("check", what + ": " + o.out.substr(o.out.size() > 120 ? o.out.size() - 120 : 0));
#endif
    if (mc::want_sample()) mc::sample(what + ": " + ps[0]);
    mc::trace(); return true;
}
#endif
static string joined(const vector<string>& f) { string s; for (auto& x : f) s += (s.empty() ? "" : ",") + x; return s; }
// every set one field away, within what the generator takes
static vector<string> neighbours(const string& line, bool every) {
    vector<string> r, h = split(HEAD, true), f = split(line, true); f.resize(h.size()); char t[20]; int mexp = atoi(f[0].c_str());
    int n = nwords(conf(*std::unique_ptr<Line>(new Line(HEAD, joined(f))))) / WPR;
    for (size_t i = 1; i < h.size(); i++) {
        vector<string> g = f; uint64_t v = val(h[i], f[i]);
        if (h[i].compare(0, 3, "par") == 0 || h[i].compare(0, 3, "fix") == 0) continue;
        if (dec(h[i])) {
            int lo = 1, hi = 31;
            if (h[i] == "pos" || h[i] == "pos1") hi = n - 2;
            if (h[i] == "sl2" || h[i] == "sr2") hi = 7;
#if defined(GEN_DSFMT)
            if (h[i] == "pos1") hi = (mexp - 128) / 104 - 1; if (h[i] == "sl1") hi = 51;
#endif
            for (int x = lo; x <= hi; x++) if (x != int(v)) { g[i] = to_string(x); r.push_back(joined(g)); }
        } else {
            int w = int(f[i].size()) * 4;
#if defined(GEN_DSFMT)
            w = 52;
#endif
            for (int b = 0; b < w; b++) {
                if ((h[i] == "maskb" && b < 17) || (h[i] == "maskc" && b < 37)) continue;       // multiples of the shifts
                if (!every && h[i].compare(0, 4, "mask") == 0 && b % 8 != 3) continue;
                snprintf(t, 20, "%0*llx", int(f[i].size()), (unsigned long long)(v ^ (1ull << b))); g[i] = t; r.push_back(joined(g));
            }
        }
    }
    (void)mexp; return r;
}
#if CALC == 3 || CALC == 5
static const vector<Args> forms = { {"-v"}, {}, {"-s", "1"}, {"-v", "-s", "0xffffffffffffffff"}, {"--seed=0"}, {"--verbose", "-s0x8000000000000000"}
#if CALC == 3
    , {"-r"}, {"-r", "-v"}, {"--reverse", "-s", "77", "--verbose"}
#endif
};
#elif CALC == 6
static const vector<Args> forms = { {}, {"-c"} };
#elif CALC == 61
static const vector<Args> forms = { {}, {"-c"}, {"-c", "-v"} };
#else
static const vector<Args> forms = { {} };
#endif
void mc_main() {
    bool T = mc::g.thorough; const int N = int(sizeof sets / sizeof *sets); int nb = 0;
    for (int i = 0; i < N; i++) {
        int mexp = atoi(sets[i]); vector<string> f = split(sets[i], true); f.resize(split(HEAD, true).size()); const string plain = joined(f);
#ifdef MC_SAN
        if (i % (CALC == 3 ? 20 : 5) || mexp > 700) continue;
#endif
        for (int rev = 0; rev < (CALC == 3 ? 2 : 1); rev++) {
            if (!T && mexp > 1000 && rev) continue;
            if (!mc::begin("set", i, rev)) continue;
            mc::text(sets[i]); mc::nontrivial();
            Truth t(plain, rev);
            if (CALC != 11 && CALC != 12 && !t.s.err.empty()) { bad("set", string(sets[i]) + ": " + t.s.err); continue; }
            for (auto& f : forms) {
                bool r = std::count(f.begin(), f.end(), "-r") || std::count(f.begin(), f.end(), "--reverse");
                if (r != bool(rev)) continue;
                if (!T && mexp > 1000 && &f - &forms[0] > 1) continue;
#ifdef MC_SAN
                if (&f - &forms[0] > 2) continue;
#endif
                if (!examine(f, &f == &forms[0] ? plain : sets[i], t)) break;
            }
        }
        if (T || (mexp < 700 && nb < (CALC == 3 ? 1 : 4))) {
            nb++; vector<string> l = neighbours(plain, T || CALC <= 2);
            for (size_t k = 0; k < l.size(); k++) {
#ifdef MC_SAN
                if (k % 16) continue;
#endif
                if (!mc::begin("neighbour", i, long(k))) continue;
                mc::text(l[k]); mc::nontrivial();
                examine(forms[0], l[k], Truth(l[k], false));
            }
        }
    }
    if (mc::begin("no set")) {
        mc::nontrivial(); vector<Args> r = { {} };
#if CALC == 14
        r.push_back({"-h"}); r.push_back({"-z", sets[0]});
#elif CALC != 4 && CALC >= 3 && (CALC < 10 || CALC == 61)
        r.push_back({"-v"}); r.push_back({"-z", sets[0]});
#endif
#if CALC == 3 || CALC == 5
        r.push_back({"-s", "99999999999999999999999999", sets[0]}); r.push_back({"-s"}); r.push_back({"--nonsense", sets[0]});
#elif CALC == 6 || CALC == 61
        r.push_back({"-h"}); r.push_back({"-h", sets[0]});
#endif
        for (auto& a : r) {
            Out o = prog::run(a); string what = name + prog::show(a); mc::state();
            if (o.died) bad("refuse", what + ": died with signal " + to_string(-o.rc));
            else if (o.rc == 0 || !prog::params(o.out).empty() || !klines(o.out).empty()) bad("refuse", what + ": accepted");
            mc::trace();
        }
    }
}
#elif CALC == 13
// MTGP of the published set: the program ends in success
void mc_main() {
    if (!mc::begin("linearity")) return;
    mc::nontrivial(); Out o = prog::run({}); mc::state(); mc::trace();
    if (o.died || o.rc) bad("linear", "ended with status " + to_string(o.rc)); else mc::sample("linear");
}
#elif CALC == 15
// the first 40 outputs of the seeded generator, four to a line
void mc_main() {
    if (!mc::begin("outputs")) return;
    mc::nontrivial(); Out o = prog::run({}); mc::state(); mc::trace();
    uint32_t s[4]; string want; char t[20];
    s[0] = 1; for (int i = 1; i < 8; i++) s[i % 4] = 1812433253u * (s[(i + 3) % 4] ^ s[(i + 3) % 4] >> 30) + i;
    auto next = [&] { uint32_t t = s[0] ^ s[0] << 11; t ^= t >> 7; s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; return s[3] = s[3] ^ s[3] << 20 ^ t; };
    for (int i = 0; i < 40; i++) { snprintf(t, 20, "%8x ", next()); want += t; if (i % 4 == 3) want += "\n"; }
    if (o.died || o.rc) bad("status", "ended with status " + to_string(o.rc));
    else if (o.out != want) bad("outputs", "printed " + o.out.substr(0, 80) + "..., expected " + want.substr(0, 80));
    mc::sample(o.out.substr(0, 36));
}
#elif CALC == 9
void mc_main() {
    if (!mc::begin("period")) return;
    mc::nontrivial(); Out o = prog::run({}); mc::state(); mc::trace();
    uint32_t x = 1, y = 2, z = 3, w = 4; NTL::Vec<NTL::GF2> v; v.SetLength(256); NTL::GF2X m, r;
    for (int i = 0; i < 256; i++) { uint32_t t = x ^ x << 5; x = y; y = z; z = w; w = (w ^ w >> 1) ^ (t ^ t >> 14); v[i] = long(w & 1); }
    MinPolySeq(m, v, 128); bool full = deg(m) == 128 && IterIrredTest(m);
    NTL::GF2X g; SetCoeff(g, 1); NTL::ZZ all = (NTL::ZZ(1) << 128) - 1, p;
    for (const char *q : {"3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721"}) { NTL::conv(p, q); if (full) { PowerMod(r, g, all / p, NTL::GF2XModulus(m)); full = !IsOne(r); } }
    if (!full) { bad("set", "the recurrence has not full period"); return; }
    if (o.died || o.rc) bad("status", "ended with status " + to_string(o.rc));
    if (o.out.find("degree = 128\n") == string::npos || o.out.find("period is 2^128 -1.") == string::npos) bad("period", "the period is 2^128-1, reported: " + o.out);
    mc::sample(o.out);
}
#else
void mc_main() {
    if (!mc::begin("table")) return;
    mc::nontrivial(); Out o = prog::run({}); mc::state(); mc::trace();
#if CALC == 7
    int mexp = 19937;                                 // Matsumoto and Nishimura (1998), table 2
    vector<int> want = {19937, 9968, 6240, 4984, 3738, 3115, 2493, 2492, 1869, 1869, 1248, 1246, 1246, 1246, 1246, 1246};
    want.resize(32, 623);
#else
    int mexp = 128; Conf c = GEN_XS == 2 ? Conf{"xs", {8, 5, 14, 1}} : Conf{"xs", {9, 20, 11, 7}};
    fig::Set s(c, 128); if (!s.err.empty()) { bad("set", s.err); return; }
    vector<int> want = fig::kv(s, fig::plain(), 32);
#endif
    if (o.died || o.rc) { bad("status", "ended with status " + to_string(o.rc)); return; }
    vector<K> ks = klines(o.out); if (ks.size() != 32) { bad("table", to_string(ks.size()) + " lines of dimensions"); return; }
    if (!table("the program", ks.begin(), mexp, want)) return;
    int d = -1; for (auto& l : prog::lines(o.out)) sscanf(l.c_str(), "delta:%d", &d);
    if (d != fig::defect(mexp, want)) bad("delta", "the total defect is " + to_string(fig::defect(mexp, want)) + ", reported " + to_string(d));
    mc::sample("delta " + to_string(d));
}
#endif
