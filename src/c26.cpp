// C26: the programs that create parameters.  Every command line of a grid is run with the real
// main; each printed set is judged by the published recurrence alone, and the lists of related
// command lines (more sets, a bound, verbose, a file, another spelling) are compared.
#include "mc.hpp"
#if defined(GEN_XS)
#define ARGLESS
#endif
#include "figures.hpp"
#ifdef PROG
#define main sample_main
#include PROG
#undef main
#endif
#include "prog.hpp"
using prog::Out;
typedef vector<string> Args;
static bool bad(const char *key, const string& m) { mc::fail(key, m); return false; }

#if !defined(GEN_XS)
// ---- the programs -------------------------------------------------------------
struct P {                                          // positional arguments and options
    const char *name; bool id, max; uint64_t idmax; vector<int> mexps; bool file; const char *longfile;
};
#if defined(GEN_MT2)
static const P prg = { "mt2", true, true, 0xffff, {521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497}, false, "" };
#elif defined(GEN_TINY)
static const P prg = { "tinymt32dc", true, true, 0xffffffff, {127}, true, "--file" };
#elif defined(GEN_MTGP)
static const P prg = { "MTGP32dc", true, false, 0xffffffff, {3217, 4423, 11213, 23209, 44497, 110503, 216091}, true, "--output-file" };
#elif defined(GEN_RMT)
static const P prg = { "rmt64dc", false, false, 0, {521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497}, true, "--file" };
#elif defined(GEN_SFMT)
static const P prg = { "sfmtdc", false, false, 0, {607, 1279, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497}, true, "--file" };
#else
static const P prg = { "dSFMTdc", false, false, 0, {521, 1279, 2203, 4253, 11213, 19937, 44497}, true, "--file" };
#endif
static Args positional(int mexp, uint64_t id) {
    Args a;
#if !defined(GEN_TINY)
    a.push_back(to_string(mexp));
#endif
    if (prg.id) a.push_back(to_string(id));
    (void)mexp; return a;
}
#if defined(GEN_TINY)
static const char *SEEDL = "--start";
#else
static const char *SEEDL = "--seed";
#endif
static Args cat(Args a, const Args& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

// ---- one list -----------------------------------------------------------------
struct List { string head; vector<string> par; };
static bool list(const Out& o, const string& text, const string& what, long want, List& l) {
    if (o.died || o.rc) return bad("status", what + ": ended with status " + to_string(o.rc) + " " + o.err.substr(0, 200));
    l.par = prog::params(text); l.head.clear(); int heads = 0; bool before = true;
    for (auto& x : prog::lines(text)) {
        if (prog::isparam(x)) { before = false; continue; }
        if (x.find("delta") != string::npos && std::count(x.begin(), x.end(), ',') >= 3) { heads++; l.head = x; if (!before && !o.verbose) return bad("header", what + ": the header comes after a parameter set"); }
    }
    if (!l.par.empty() && heads != 1) return bad("header", what + ": " + to_string(heads) + " header lines");
    while (!l.head.empty() && strchr("# ", l.head[0])) l.head.erase(0, 1);
    if (o.verbose) {                                  // progress may be shown as lines without the results
        size_t n = split(l.head, false).size(); vector<string> w; for (auto& x : l.par) if (split(x, true).size() == n) w.push_back(x); l.par = w;
    }
    if (want >= 0 && long(l.par.size()) != want) return bad("count", what + ": " + to_string(l.par.size()) + " parameter sets, " + to_string(want) + " asked for");
    return true;
}
// judge one printed set
static bool judge(const string& head, const string& line, int mexp, uint64_t id, const string& what) {
    Line l(head, line);
    if (!l.err.empty()) return bad("line", what + ": " + l.err + " in \"" + line + "\"");
    Conf c = conf(l);
#if !defined(GEN_TINY)
    if (int(l.d("mexp")) != mexp) return bad("mexp", what + ": \"" + line + "\" is for another exponent");
#endif
    if (prg.id && (l.d("id") != id || idof(l) != id)) return bad("id", what + ": \"" + line + "\" is for another identifier");
    if (!l.err.empty()) return bad("line", what + ": " + l.err + " in \"" + line + "\"");
    fig::Set s(c, mexp);
    if (!s.err.empty()) return bad("period", what + ": \"" + line + "\": " + s.err);
    mc::state(); mc::trace(); mc::count("sets judged");
    auto delta = [&](const char *name, const fig::Grain& g, int v) {
        int want = fig::defect(mexp, fig::kv(s, g, v)); int64_t got = int64_t(l.d(name));
        if (got != want || !l.err.empty()) return bad("delta", what + ": " + name + " of \"" + line + "\" is " + to_string(want) + l.err);
        return true;
    };
#if defined(GEN_MT2) || defined(GEN_TINY) || defined(GEN_MTGP) || defined(GEN_RMT)
    if (!delta("delta", fig::plain(), W)) return false;
#endif
#if defined(GEN_TINY) || defined(GEN_MTGP)
    if (long(l.d("weight")) != NTL::weight(s.m)) return bad("weight", what + ": weight of \"" + line + "\" is " + to_string(NTL::weight(s.m)));
#endif
#if defined(GEN_TINY)
    { string h = l.f["characteristic"]; uint64_t a = 0, b = 0; for (int i = 0; i < 64; i++) { a |= uint64_t(IsOne(coeff(s.m, i + 64))) << i; b |= uint64_t(IsOne(coeff(s.m, i))) << i; }
      char t[40]; snprintf(t, 40, "%016llx%016llx", (unsigned long long)a, (unsigned long long)b); if (h != t) return bad("characteristic", what + ": characteristic polynomial of \"" + line + "\" is " + t); }
#endif
#if defined(GEN_RMT)
    { string e = fig::parity(s, {l.h("parity")}); if (!e.empty()) return bad("parity", what + ": \"" + line + "\": " + e); }
#elif defined(GEN_SFMT)
    { string e = fig::parity(s, {l.h("parity1") | l.h("parity2") << 32, l.h("parity3") | l.h("parity4") << 32}); if (!e.empty()) return bad("parity", what + ": \"" + line + "\": " + e); }
    if (!delta("delta32", {4, 32, 31, false}, 32) || !delta("delta64", {2, 64, 63, false}, 64) || !delta("delta128", {1, 128, 127, false}, 128)) return false;
#elif defined(GEN_DSFMT)
    { string e = fig::parity(s, {l.h("parity1"), l.h("parity2")}); if (!e.empty()) return bad("parity", what + ": \"" + line + "\": " + e); }
    if (!delta("delta52", {2, 52, 51, false}, 52)) return false;
    Row fx = fig::fixpoint(s); if (fx[0] != l.h("fix1") || fx[1] != l.h("fix2")) return bad("fixpoint", what + ": the fixed point of \"" + line + "\" is " + mc::hex(fx[0]) + "," + mc::hex(fx[1]));
#endif
    if (!l.err.empty()) return bad("line", what + ": " + l.err + " in \"" + line + "\"");
    return true;
}
static bool same(const vector<string>& want, const vector<string>& got, const string& what) {
    if (want == got) return true;
    size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
    return bad("differs", what + ": set " + to_string(i) + " is " + (i < got.size() ? "\"" + got[i] + "\"" : "missing") + ", expected " + (i < want.size() ? "\"" + want[i] + "\"" : "none"));
}
static uint64_t idof_line(uint64_t id, int k) {       // the identifier of the k-th set
#if defined(GEN_MTGP)
    return uint32_t(id + uint64_t(k));
#else
    (void)k; return id;
#endif
}
// the histories of one exponent, identifier and seed
static void base(int mexp, uint64_t id, const string& seed, int n, int depth, const Args& extra) {
    Args pos = positional(mexp, id), sd = {"-s", seed}, wide;
#if defined(GEN_TINY)
    wide = {"-m", "1000"};                            // there is a bound by default
#endif
    sd = cat(sd, cat(wide, extra));
    Args a = cat(cat({"-c", to_string(n)}, sd), pos);
    string what = string(prg.name) + prog::show(a);
    Out o = prog::run(a); List L, M;
    if (!list(o, o.out, what, n, L)) return;
#if defined(GEN_DSFMT)
    if (!extra.empty()) { string f = extra[0] == "-x" ? "19" : extra[0].substr(extra[0].find_first_of("0123456789")); for (auto& p : L.par) if (Line(L.head, p).f["sl1"] != f) { bad("fixed", what + ": sl1 of \"" + p + "\" is not " + f); return; } }
#endif
    for (size_t i = 0; i < L.par.size(); i++) if (!judge(L.head, L.par[i], mexp, idof_line(id, int(i)), what)) return;
    if (mc::want_sample()) mc::sample(what + ": " + (L.par.empty() ? "none" : L.par[0]));
    mc::nontrivial();
    auto again = [&](const Args& b, vector<string> want, const string& file = "") {
        string w = string(prg.name) + prog::show(b); Out r = prog::run(b); List M; string text = r.out;
        if (!file.empty()) { if (!prog::params(r.out).empty()) return bad("file", w + ": parameter sets on standard output"); text = prog::slurp(file); unlink(file.c_str()); }
        if (!list(r, text, w, -1, M) || !same(want, M.par, w)) return false;
        if (!M.par.empty() && M.head != L.head) return bad("header", w + ": the header changes");
        mc::trace(); mc::count("related command lines"); return true;
    };
    auto head = [&](size_t k) { return vector<string>(L.par.begin(), L.par.begin() + std::min(k, L.par.size())); };
    string S = SEEDL;
    if (depth >= 1 && !again(cat(pos, cat(sd, {"-c" + to_string(n)})), L.par)) return;                                           // again, options last
    if (depth >= 1 && !again(cat(cat(cat({"-v", "-c", "1"}, sd), pos), {}), head(1))) return;
    if (depth >= 1 && prg.file && !again(cat(cat({"-f", "made.txt", "-c", "1"}, sd), pos), head(1), "made.txt")) return;
    if (depth >= 1) for (int k = 0; k < n; k++) if (!again(cat(cat({"-c", to_string(k)}, sd), pos), head(k))) return;
    if (depth >= 2) {
        if (!again(cat(cat({S + "=" + seed, "--count=" + to_string(n)}, cat(wide, extra)), pos), L.par)) return;
        if (!again(cat(cat({"--verbose", S, seed, "--count", to_string(n)}, cat(wide, extra)), pos), L.par)) return;
        if (!again(cat(cat(sd, wide), pos), head(1))) return;                                                                       // one by default
        if (prg.file && !again(cat(cat({prg.longfile, "made.txt", "-v", "-c", to_string(n)}, sd), pos), L.par, "made.txt")) return;
        if (prg.file && !again(cat(cat({string(prg.longfile) + "=./other.txt", "-c", "0"}, sd), pos), {}, "other.txt")) return;
    }
#if defined(GEN_MT2) || defined(GEN_TINY)
    if (depth >= 2) {
        std::set<int> ds; std::map<string, int> del; for (auto& p : L.par) { Line l(L.head, p); int d = int(l.d("delta")); ds.insert(d); del[p] = d; }
        for (int d : ds) {
            vector<string> want; for (auto& p : L.par) if (del[p] <= d) want.push_back(p);
            if (!again(cat(cat(Args{"-s", seed, "-c", to_string(want.size())}, {d % 2 ? "-m" : "--max", to_string(d)}), pos), want)) return;
        }
    }
#endif
}
// counts of two digits, with and without a leading zero
static void many(int mexp, uint64_t id, const string& seed, const string& n) {
    Args a = cat({"-c", n, "-s", seed}, positional(mexp, id));
#if defined(GEN_TINY)
    a = cat({"-m", "1000"}, a);
#endif
    string what = string(prg.name) + prog::show(a); Out o = prog::run(a); List L;
    if (!list(o, o.out, what, atol(n.c_str()), L)) return;
    for (size_t i = 0; i < L.par.size(); i++) if (!judge(L.head, L.par[i], mexp, idof_line(id, int(i)), what)) return;
    mc::nontrivial(); mc::trace(); mc::count("long lists");
}
// several sets shown verbosely, into a file: every result under one header
static void verbosely(int mexp, uint64_t id, const string& seed, int n) {
    Args a = cat({"-v", "-c", to_string(n), "-s", seed}, positional(mexp, id));
    if (prg.file) a = cat({"-f", "shown.txt"}, a);
    string what = string(prg.name) + prog::show(a); Out o = prog::run(a); List L; string text = o.out;
    if (prg.file) {
        if (!prog::params(o.out).empty()) { bad("file", what + ": parameter sets on standard output"); return; }
        text = prog::slurp("shown.txt"); unlink("shown.txt");
    }
    if (!list(o, text, what, n, L)) return;
    for (size_t i = 0; i < L.par.size(); i++) if (!judge(L.head, L.par[i], mexp, idof_line(id, int(i)), what)) return;
    mc::nontrivial(); mc::trace(); mc::count("verbose lists");
}
static bool refused(const Args& a) {
    string what = string(prg.name) + prog::show(a); Out o = prog::run(a); mc::state();
    if (o.died) return bad("reject", what + ": died with signal " + to_string(-o.rc));
    if (!prog::params(o.out).empty()) return bad("reject", what + ": a parameter set is printed");
    if (o.rc == 0) return bad("reject", what + ": accepted");
    mc::trace(); mc::count("refused command lines"); return true;
}
static bool accepted(const Args& a) {
    string what = string(prg.name) + prog::show(a); Out o = prog::run(a); mc::state(); List L;
    if (!list(o, o.out, what, 0, L)) return false;
    mc::trace(); mc::count("accepted command lines"); return true;
}
static void grid() {
    bool T = mc::g.thorough;
    // exponents
#if !defined(GEN_TINY)
    std::set<int> es;
    for (int m : {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839})
        for (int d : {-64, -32, -2, -1, 0, 1, 2, 32, 64}) es.insert(m + d);
    for (int m = -5; m < (T ? 50000 : 700); m++) es.insert(m);
    vector<int> ev(es.begin(), es.end());
    for (size_t b = 0; b < ev.size(); b += 40) {
        if (!mc::begin("exponents", long(b))) continue;
        mc::nontrivial();
        for (size_t i = b; i < ev.size() && i < b + 40; i++) {
            bool ok = std::find(prg.mexps.begin(), prg.mexps.end(), ev[i]) != prg.mexps.end();
            Args a = cat({"-c", "0", "-s", "1", "--"}, positional(ev[i], 1));
            if (!(ok ? accepted(a) : refused(a))) break;
        }
    }
#endif
    int m0 = prg.mexps[0];
    if (prg.id) {
        vector<int64_t> ids = {0, 1, 2, 255, 65534, 65535, 65536, 65537, 131071, 0x7fffffff, 0x80000000ll, 0xfffffffell, 0xffffffffll, 0x100000000ll, 0x100000001ll, 1ll << 40, -1, -2, -65536, -0x80000000ll};
        for (int i = 0; i < 34; i++) ids.push_back(1ll << i);
        if (mc::begin("ids")) {
            mc::nontrivial();
            for (int64_t id : ids) {
#if defined(GEN_MTGP)
                if (id < 0 || id > 0xffffffffll) continue;             // taken modulo 2^32
#endif
                Args a = cat({"-c", "0", "-s", "1", "--"}, positional(m0, 0)); a.back() = to_string(id);
                if (!(id >= 0 && uint64_t(id) <= prg.idmax ? accepted(a) : refused(a))) break;
            }
        }
    }
    // arguments missing, options unknown or without their value
    if (mc::begin("refused")) {
        mc::nontrivial();
        Args pos = positional(m0, 1); vector<Args> r; Args z = {"-c", "0"};
        for (size_t k = 0; k < pos.size(); k++) r.push_back(cat(z, Args(pos.begin(), pos.begin() + k)));
        r.push_back({});
        for (string o : {"-z", "--nonsense", "-Z5", "-1"}) { r.push_back(cat(cat(z, {o}), pos)); r.push_back(cat(z, cat(pos, {o}))); }
        for (string o : {"-c", "-s", "--count"}) r.push_back(cat(cat(z, pos), {o}));
        r.push_back(cat(cat({"-c", "99999999999999999999999999"}, {}), pos));
        r.push_back(cat(cat({"--count=99999999999999999999999999"}, {}), pos));
#if defined(GEN_MT2) || defined(GEN_TINY)
        r.push_back(cat(cat(z, {"-m", "99999999999999999999999999"}), pos)); r.push_back(cat(cat(z, pos), {"--max"}));
#endif
#if !defined(GEN_MTGP)
        r.push_back(cat(cat(z, {"-s", "99999999999999999999999999"}), pos));
        { Args p = pos; p.back() = "99999999999999999999999999"; r.push_back(cat(z, p)); }
#endif
#if defined(GEN_TINY)
        for (string s : {"0x80000000", "2147483648", "4294967295", "0xffffffff"}) { r.push_back(cat(cat(z, {"-s", s}), pos)); r.push_back(cat(cat(z, {"--start=" + s}), pos)); }
#endif
        if (prg.file) { r.push_back(cat(cat(z, {"-f", "no-such-directory/x"}), pos)); r.push_back(cat(cat(z, {string(prg.longfile) + "=."}), pos)); r.push_back(cat(cat(z, pos), {"-f"})); }
        for (auto& a : r) if (!refused(a)) break;
    }
    if (mc::begin("accepted")) {
        mc::nontrivial();
        Args pos = positional(m0, 1); vector<Args> r;
        for (string s : {"0", "1", "0x10", "4294967295", "0x7fffffff"}) {
#if defined(GEN_TINY)
            if (s == "4294967295") continue;
#endif
            r.push_back(cat(cat({"-c", "0", "-s", s}, {}), pos)); r.push_back(cat(pos, {"-c0", string(SEEDL) + "=" + s})); r.push_back(cat(cat({"-v", SEEDL, s}, pos), {"--count", "0"}));
        }
        for (auto& a : r) if (!accepted(a)) break;
    }
}
#if defined(GEN_TINY)
// everything reachable from a start, by counting down
static void everything(uint64_t start, uint32_t id, const string& m) {
    Args a = {"-a", "-s", to_string(start), "-m", m, to_string(id)};
    string what = string(prg.name) + prog::show(a); Out o = prog::run(a); List L;
    if (!list(o, o.out, what, -1, L)) return;
    vector<string> want, got, all; int bound = atoi(m.c_str());
    for (auto& p : L.par) { if (!judge(L.head, p, 127, id, what)) return; Line l(L.head, p); got.push_back(l.f["mat1"] + " " + l.f["mat2"]); if (int(l.d("delta")) > bound) { bad("max", what + ": \"" + p + "\" is beyond the bound"); return; } }
    for (int64_t k = int64_t(start); k >= 0; k--) {
        G g(id); ListPG<MTToolBox::ParameterGenerator> pg({uint64_t(k)}); g.setUpParam(pg);
        Line l(g.getHeaderString(), g.getParamString()); Conf c = conf(l); fig::GF2X p = fig::minimal(c, 127, 1);
        if (deg(p) == 127 && IterIrredTest(p)) want.push_back(l.f["mat1"] + " " + l.f["mat2"]);
    }
    if (bound >= 1000) { same(want, got, what); }
    else { size_t i = 0; for (auto& x : got) { while (i < want.size() && want[i] != x) i++; if (i == want.size()) { bad("differs", what + ": " + x + " is out of order"); return; } i++; } }
    mc::nontrivial(); mc::trace(); mc::count("sets listed", got.size());
}
#endif
static const char *keep(const char *s) { static std::set<string> all; return all.insert(s).first->c_str(); }
void mc_main() {
    bool T = mc::g.thorough;
    struct B { int mexp; uint64_t id; const char *seed; int n, depth; Args extra; };
    static const uint64_t ids2[] = {0, 65535, 0x8001, 1234, 255, 1, 0x5555, 0xaaaa}, ids3[] = {0, 0xffffffff, 65536};
    (void)ids2; (void)ids3; vector<B> bs;
#if defined(GEN_MTGP)
    bs = { {3217, 7, "a", 2, 0, {}} };
    if (T) { bs.push_back({3217, 0xfffffffe, "seed string", 3, 1, {}}); bs.push_back({3217, 1, "12345", 2, 2, {}}); bs.push_back({4423, 77, "z", 1, 1, {}}); }
#elif defined(GEN_RMT)
    bs = { {521, 0, "1", 1, 1, {}}, {521, 0, "0x20", 1, 0, {}}, {521, 0, "3", 2, 0, {}} };
    if (T) for (int s = 4; s < 16; s++) bs.push_back({s % 4 == 3 ? 607 : 521, 0, "12345678901" , 3, s % 3, {}}), bs.back().seed = keep(to_string(s * 1000003).c_str());
#elif defined(GEN_MT2)
    for (int s = 0; s < (T ? 48 : 8); s++) bs.push_back({s % 8 == 7 ? 607 : 521, ids2[s % 8], keep((s % 2 ? to_string(s * 7919) : mc::hex(s * 104729)).c_str()), s % 8 == 7 ? 1 : s % 2 ? 2 : 3, s % 8 == 7 ? 1 : 2, {}});
    if (T) bs.push_back({1279, 3, "9", 2, 2, {}});
#elif defined(GEN_TINY)
    for (int s = 0; s < (T ? 160 : 24); s++) bs.push_back({127, s % 3 ? mixk(s) & 0xffffffff : s < 9 ? ids3[s / 3] : uint64_t(s), keep(s == 1 ? "0x7fffffff" : to_string(mixk(s + 50) & 0x7fffffff).c_str()), 4, 2, {}});
#elif defined(GEN_SFMT)
    for (int s = 0; s < (T ? 24 : 4); s++) bs.push_back({607, 0, keep((s % 2 ? to_string(s + 1) : mc::hex(s + 0x1234)).c_str()), 2, s % 2 ? 2 : 1, {}});
    if (T) { bs.push_back({1279, 0, "5", 2, 2, {}}); bs.push_back({2281, 0, "6", 1, 1, {}}); }
#else
    for (int s = 0; s < (T ? 60 : 12); s++) {
        static const int fs[] = {7, 11, 19, 29, 13, 41, 23, 47};   // no set exists for even ones
        Args x; string f = to_string(fs[s / 2 % 8]); if (s % 4 == 1) x = {"-x"}; if (s % 4 == 2) x = {"-x" + f}; if (s % 4 == 3) x = {"--fixed=" + f};
        bs.push_back({521, 0, keep((s % 2 ? to_string(s + 1) : mc::hex(s + 0x1234)).c_str()), 2, 2, x});
    }
    if (T) { bs.push_back({1279, 0, "5", 2, 2, {}}); bs.push_back({2203, 0, "6", 1, 1, {}}); }
#endif
#ifdef MC_SAN
    bs.resize(1); bs[0].n = 1; bs[0].depth = 0;
#if defined(GEN_MTGP) || defined(GEN_RMT)
    bs.clear();
#endif
#endif
    for (size_t i = 0; i < bs.size(); i++) {
        if (!mc::begin("base", bs[i].mexp, long(bs[i].id), bs[i].n, bs[i].depth)) continue;
        mc::text("seed " + string(bs[i].seed));
        base(bs[i].mexp, bs[i].id, bs[i].seed, bs[i].n, bs[i].depth, bs[i].extra);
    }
#if defined(GEN_TINY)
#ifndef MC_SAN
    for (uint32_t id : {1u, 0u, 0x80000001u, 0xffffffffu}) for (const char *m : {"1000", "8", "0"}) for (uint64_t s : {uint64_t(0), uint64_t(1), uint64_t(T ? 4000 : 400)}) {
        if (!mc::begin("all", id, long(s), atoi(m))) continue;
        everything(s, id, m);
    }
#endif
#endif
#ifndef MC_SAN
#if defined(GEN_RMT)
    vector<string> ns = {"010"}; if (T) ns = {"010", "12", "19"};
#elif defined(GEN_MTGP)
    vector<string> ns; if (T) ns = {"010"};
#elif defined(GEN_TINY)
    vector<string> ns = {"010", "11", "32", "64", "0100"};
#else
    vector<string> ns = {"010"}; if (T) ns = {"010", "17", "032", "100"};
#endif
    for (size_t i = 0; i < ns.size(); i++) {
        if (!mc::begin("many", atol(ns[i].c_str()))) continue;
        many(prg.mexps[0], 77, to_string(0x7000101 + i), ns[i]);
    }
#endif
#if defined(GEN_MTGP) && !defined(MC_SAN)
    if (mc::begin("verbosely", 3217, 2)) verbosely(3217, 0x40000000, "other", 2);
#endif
    grid();
}
#else
// ---- xorshift-3 and -4: every full-period parameter set, and no other -----------
static NTL::ZZ factor(int i) { static const char *p[] = {"3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721"}; NTL::ZZ z; NTL::conv(z, p[i]); return z; }
static bool fullperiod(const NTL::GF2X& m) {
    if (deg(m) != 128 || !IterIrredTest(m)) return false;
    NTL::GF2XModulus F(m); NTL::GF2X x; SetCoeff(x, 1); NTL::ZZ N = (NTL::ZZ(1) << 128) - 1;
    for (int i = 0; i < 9; i++) { NTL::GF2X r; PowerMod(r, x, N / factor(i), F); if (IsOne(r)) return false; }
    return true;
}
void mc_main() {
    const int bits = GEN_XS == 4 ? 18 : 15;
    if (!mc::begin("list")) return;
    mc::nontrivial();
    Out o = prog::run({}); string name = "xorshift-" + to_string(GEN_XS);
    if (o.died || o.rc) { bad("status", name + ": ended with status " + to_string(o.rc)); return; }
    std::map<string, int> got;
    vector<string> ls = prog::lines(o.out);
    if (ls.empty() || ls[0].find("delta") != 0 || ls[0].find(':') == string::npos) { bad("header", name + ": no header"); return; }
    string head = ls[0].substr(ls[0].find(':') + 1);
    for (size_t i = 1; i < ls.size(); i++) {
        if (ls[i].empty()) continue;
        size_t k = ls[i].find(':'); if (k == string::npos) { bad("line", name + ": \"" + ls[i] + "\""); return; }
        Line l(head, ls[i].substr(k + 1)); Conf c = conf(l); if (!l.err.empty()) { bad("line", name + ": " + l.err); return; }
        if (!got.emplace(join(c.p), atoi(ls[i].c_str())).second) { bad("twice", name + ": \"" + ls[i] + "\" is printed twice"); return; }
    }
    size_t n = 0;
    for (uint64_t r = 0; r < (1ull << bits); r++) {
        mc::heartbeat = mc::heartbeat + 1;
        Conf c = {"xs", {GEN_XS == 4 ? r >> 15 : 8, r >> 10 & 31, r >> 5 & 31, r & 31}};
        vector<uint64_t> x = {0x12345678, 0x9abcdef1, 0x0fedcba9, 0x87654321}; Row s = refwin(c, x, 256);
        NTL::Vec<NTL::GF2> v; v.SetLength(256); for (int i = 0; i < 256; i++) v[i] = long(s[i] & 1);
        NTL::GF2X m; MinPolySeq(m, v, 128); mc::state();
        bool full = fullperiod(m); auto it = got.find(join(c.p));
        if (full != (it != got.end())) { bad("differs", name + ": " + join(c.p) + (full ? " has full period and is not printed" : " is printed and has not full period")); return; }
        if (!full) continue;
        n++; fig::Set t(c, 128); int d = fig::defect(128, fig::kv(t, fig::plain(), 32)); mc::trace();
        if (d != it->second) { bad("delta", name + ": total defect of " + join(c.p) + " is " + to_string(d) + ", printed " + to_string(it->second)); return; }
    }
    mc::count("sets listed", n); mc::sample(name + ": " + to_string(n) + " sets of full period");
}
#endif
