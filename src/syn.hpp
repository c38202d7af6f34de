// A synthetic SIMD generator with the element modes of the SFMT / dSFMT samples; include after the sample's headers.
#ifndef SYN_HPP
#define SYN_HPP
struct Tab { int n; uint64_t m; MTToolBox::w128_t col[64]; };
class Syn : public MTToolBox::EquidistributionCalculatable<MTToolBox::w128_t> {
public:
    const Tab *t; uint64_t x; int sm, wm; MTToolBox::w128_t last, prev; bool rev;
#if defined(GEN_SFMT)
    enum { UNITS = 4 };
    static void put(MTToolBox::w128_t& r, int i, const MTToolBox::w128_t& a, int j) { r.u[i] = a.u[j]; }
#else
    enum { UNITS = 2 };
    static void put(MTToolBox::w128_t& r, int i, const MTToolBox::w128_t& a, int j) { r.u64[i] = a.u64[j]; }
#endif
    Syn(const Tab& tab, uint64_t x0) : t(&tab), x(x0), sm(0), wm(UNITS), rev(false) { last = word(); prev.u64[0] = prev.u64[1] = 0; }
    Syn(const Syn& o) : MTToolBox::EquidistributionCalculatable<MTToolBox::w128_t>(), t(o.t), x(o.x), sm(o.sm), wm(o.wm), last(o.last), prev(o.prev), rev(o.rev) {}
    MTToolBox::w128_t word() const { MTToolBox::w128_t r; r.u64[0] = r.u64[1] = 0; for (uint64_t y = x; y; y &= y - 1) { int i = __builtin_ctzll(y); r.u64[0] ^= t->col[i].u64[0]; r.u64[1] ^= t->col[i].u64[1]; } return r; }
    MTToolBox::w128_t generate() {
        x <<= 1; if (x >> t->n & 1) x ^= t->m;
        MTToolBox::w128_t cur = word(), r, o;
        for (int i = 0; i < UNITS; i++) if (i + sm < UNITS) put(r, i, sm ? last : cur, i + sm); else put(r, i, cur, i + sm - UNITS);
        for (int i = 0; i < UNITS; i++) put(o, i, i < wm ? r : prev, i);
        last = cur; prev = r;
        return o;
    }
    MTToolBox::w128_t generate(int v) { MTToolBox::w128_t w = generate(); if (rev) w = reverse_bit(w); return and_mask(w, make_msb_mask(v)); }
    void setStartMode(int s) { sm = s; }
    int getStartMode() { return sm; }
    void setWeightMode(int w) { wm = w; prev.u64[0] = prev.u64[1] = 0; }
    int getWeightMode() { return wm; }
    void seed(MTToolBox::w128_t v) { x = v.u64[0]; }
    int bitSize() const { return t->n; }
    void setUpParam(MTToolBox::ParameterGenerator&) {}
    const std::string getHeaderString() { return "syn"; }
    const std::string getParamString() { return "syn"; }
    MTToolBox::EquidistributionCalculatable<MTToolBox::w128_t> *clone() const { return new Syn(*this); }
    void add(MTToolBox::EquidistributionCalculatable<MTToolBox::w128_t>& q) { Syn& o = dynamic_cast<Syn&>(q); x ^= o.x; for (int i = 0; i < 2; i++) { last.u64[i] ^= o.last.u64[i]; prev.u64[i] ^= o.prev.u64[i]; } }
    void setZero() { x = 0; for (int i = 0; i < 2; i++) last.u64[i] = prev.u64[i] = 0; }
    bool isZero() const { return x == 0 && !last.u64[0] && !last.u64[1] && !prev.u64[0] && !prev.u64[1]; }
};
#endif
