// Reading a parameter line: the fields named by the header, the identifier they carry
// and the configuration of a generator (samples.hpp) they stand for.
#ifndef LINE_HPP
#define LINE_HPP
#include "samples.hpp"
using namespace smp;
using std::string; using std::vector; using std::to_string;
// ---- reading a line -----------------------------------------------------------
inline string trim(string s) { while (!s.empty() && strchr(" \t\n\r", s[0])) s.erase(0, 1); while (!s.empty() && strchr(" \t\n\r", s.back())) s.pop_back(); return s; }
inline vector<string> split(const string& s, bool line) {
    vector<string> r; string c;
    for (char x : s) if (x == ',') { r.push_back(trim(c)); c.clear(); } else c += x;
    if (!line || !trim(c).empty()) r.push_back(trim(c));       // a parameter line may end with a comma
    return r;
}
struct Line {
    vector<string> head; std::map<string, string> f; string err;
    Line(const string& header, const string& line) {
        head = split(header, false); vector<string> v = split(line, true);
        if (v.size() != head.size()) { err = "the header names " + to_string(head.size()) + " fields, the line has " + to_string(v.size()); return; }
        for (size_t i = 0; i < v.size(); i++) { if (f.count(head[i])) err = "field " + head[i] + " named twice"; f[head[i]] = v[i]; }
    }
    uint64_t num(const string& k, int base) {
        auto it = f.find(k);
        if (it == f.end()) { if (err.empty()) err = "no field " + k; return 0; }
        const string& s = it->second; char *e; errno = 0;
        if (s.empty() || !(isxdigit(s[0]) || s[0] == '-')) { if (err.empty()) err = "field " + k + " is \"" + s + "\""; return 0; }
        uint64_t r = s[0] == '-' ? uint64_t(strtoll(s.c_str(), &e, base)) : strtoull(s.c_str(), &e, base);
        if ((*e || errno) && err.empty()) err = "field " + k + " is \"" + s + "\"";
        return r;
    }
    uint64_t d(const string& k) { return num(k, 10); }
    uint64_t h(const string& k) { return num(k, 16); }
};

#if defined(GEN_MT2)
static uint64_t idof(Line& l) { return l.h("mata") & 0xffff; }
static Conf conf(Line& l) { return {"mt", {l.d("mexp"), l.d("pos"), l.h("mata"), l.h("maskb"), l.h("maskc")}}; }
#elif defined(GEN_MTGP)
static uint64_t idof(Line& l) { return (l.h("tbl_2") >> 4 & 0xffff) | (l.h("tbl_3") & 0xffff0000); }
static Conf conf(Line& l) {
    Conf c{"mtgp", {l.d("mexp"), l.d("pos"), l.d("sh1"), l.d("sh2")}};
    for (int i = 0; i < 4; i++) c.p.push_back(l.h("tbl_" + to_string(i)));
    for (int i = 0; i < 4; i++) c.p.push_back(l.h("tmp_" + to_string(i)));
    return c;
}
#elif defined(GEN_TINY)
static uint64_t idof(Line& l) {
    uint32_t a = uint32_t(l.h("mat1")), b = uint32_t(l.h("mat2"));
    a ^= a >> 19; b ^= 1; b ^= b << 18;
    return (a & 0xffff) | (b & 0xffff0000);
}
static Conf conf(Line& l) { return {"tiny", {l.h("mat1"), l.h("mat2"), l.h("tmat")}}; }
#elif defined(GEN_RMT)
static uint64_t idof(Line&) { return 0; }
static Conf conf(Line& l) { return {"rmt", {l.d("mexp"), l.d("pos"), l.h("mata"), l.h("maskb"), l.h("maskc")}}; }
#elif defined(GEN_SFMT)
static uint64_t idof(Line&) { return 0; }
static Conf conf(Line& l) { return {"sfmt", {l.d("mexp"), l.d("pos1"), l.d("sl1"), l.d("sl2"), l.d("sr1"), l.d("sr2"), l.h("msk1"), l.h("msk2"), l.h("msk3"), l.h("msk4")}}; }
#elif defined(GEN_DSFMT)
static uint64_t idof(Line&) { return 0; }
static Conf conf(Line& l) { return {"dsfmt", {l.d("mexp"), l.d("pos1"), l.d("sl1"), l.h("msk1"), l.h("msk2")}}; }
#else
static uint64_t idof(Line&) { return 0; }
static Conf conf(Line& l) { return {"xs", {l.f.count("pat") ? l.d("pat") : 8, l.d("a"), l.d("b"), l.d("c")}}; }
#endif
#endif
