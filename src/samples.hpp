// Adaptors for the generator classes in /repo/samples.  One class is chosen per
// compilation with -DGEN_<NAME>; each adaptor says how to make and seed an object
// of a configuration and gives, independently, the published recurrence (refwin).
#ifndef SAMPLES_HPP
#define SAMPLES_HPP
#include "mc.hpp"
#include "oracle.hpp"
#include <random>
#include <memory>
namespace smp {
    typedef std::vector<uint64_t> Row;                 // a run of outputs, words packed low half first
    struct Conf { std::string name; std::vector<uint64_t> p; };
    inline uint64_t mixk(uint64_t k) { k += 0x9e3779b97f4a7c15ull; k = (k ^ (k >> 30)) * 0xbf58476d1ce4e5b9ull; k = (k ^ (k >> 27)) * 0x94d049bb133111ebull; return k ^ (k >> 31); }
    // a parameter source that replays a list
    template<class PG> struct ListPG : public PG {
        std::vector<uint64_t> v; size_t i; ListPG(const std::vector<uint64_t>& w) : v(w), i(0) {}
        uint32_t getUint32() { return uint32_t(next()); }
        uint64_t getUint64() { return next(); }
        void seed(uint64_t) { i = 0; }
        uint64_t next() { return i < v.size() ? v[i++] : (i++, 0); }
    };
    template<class T> std::string join(const std::vector<T>& v) { std::ostringstream s; for (size_t i = 0; i < v.size(); i++) s << (i ? "," : "") << std::hex << v[i]; return s.str(); }
}
// ------------------------------------------------------------------ MT (mt2.cpp)
#if defined(GEN_MT2)
#define main sample_main
#include "mt2.cpp"
#undef main
namespace smp {
    typedef uint32_t U; typedef MT32Search G; enum { W = 32, WPR = 1, HASREV = 1, ONEBIT = 0, EXPL = 0 };
    // p: mexp, pos, mata, maskb, maskc
    inline std::vector<Conf> confs(bool thorough) {
        std::vector<Conf> c;
        auto put = [&](int mexp, int pos, uint32_t a, uint32_t b, uint32_t m) { c.push_back({"mt", {uint64_t(mexp), uint64_t(pos), a, b, m}}); };
        for (int mexp : {107, 127, 89}) for (int pos = 2; pos <= mexp / 32; pos++) for (uint32_t a : {0x9908b0dfu, 0x80000000u, 0xf00d0017u}) {
            put(mexp, pos, a, 0, 0); put(mexp, pos, a, 0x9d2c5680, 0xefc60000);
        }
        put(521, 5, 0xa1230001, 0x9d2c5680, 0xefc60000); put(521, 16, 0x9908b0df, 0x655e5280, 0xffd58000);
        if (thorough) { put(521, 2, 0x9908b0df, 0, 0); put(521, 9, 0xe5a00003, 0x3f5e7a80, 0x7fd50000); put(607, 13, 0x9908b0df, 0x9d2c5680, 0xefc60000); put(1279, 20, 0x9908b0df, 0x9d2c5680, 0xefc60000); }
        return c;
    }
    inline G *make(const Conf& c) { return new G(int(c.p[0]), 7, int(c.p[1]), uint32_t(c.p[2]), uint32_t(c.p[3]), uint32_t(c.p[4]), 1); }
    inline void seedk(G& g, uint64_t k) { g.seed(uint32_t(k)); }
    inline int nwords(const Conf& c) { return int(c.p[0] / 32 + 1); }
    inline std::vector<int> live(const Conf& c) { std::vector<int> l; int n = nwords(c), r = n * 32 - int(c.p[0]); for (int i = r; i < 32 * n; i++) l.push_back(i); return l; }
    inline uint32_t temper(const Conf& c, uint32_t y) { y ^= y >> 12; y ^= (y << 7) & uint32_t(c.p[3]); y ^= (y << 15) & uint32_t(c.p[4]); return y ^ y >> 18; }
    inline Row refwin(const Conf& c, std::vector<uint64_t> x, int K) {
        int n = nwords(c), r = n * 32 - int(c.p[0]); Row o;
        for (int i = 0; i < K; i++) {
            uint32_t low = r ? uint32_t((uint64_t(1) << r) - 1) : 0;
            uint32_t y = (uint32_t(x[i]) & ~low) | (uint32_t(x[i + 1]) & low);
            uint32_t z = uint32_t(x[i + c.p[1]]) ^ (y >> 1) ^ ((y & 1) ? uint32_t(c.p[2]) : 0);
            x.push_back(z); o.push_back(temper(c, z));
        }
        return o;
    }
}
// ------------------------------------------------------------------ MT19937 (mt1.cpp)
#elif defined(GEN_MT1)
#define main sample_main
#include "mt1.cpp"
#undef main
namespace smp {
    typedef uint32_t U; typedef MT19937 G; enum { W = 32, WPR = 1, HASREV = 0, ONEBIT = 0, EXPL = 0 };
    inline std::vector<Conf> confs(bool) { return { {"mt19937", {}} }; }
    inline G *make(const Conf&) { return new G(1); }
    inline void seedk(G& g, uint64_t k) { g.seed(uint32_t(k)); }
    inline int nwords(const Conf&) { return 624; }
    inline std::vector<int> live(const Conf&) { std::vector<int> l; for (int i = 31; i < 624 * 32; i++) l.push_back(i); return l; }
    inline Row refwin(const Conf&, std::vector<uint64_t> x, int K) {
        Row o;
        for (int i = 0; i < K; i++) {
            uint32_t y = (uint32_t(x[i]) & 0x80000000u) | (uint32_t(x[i + 1]) & 0x7fffffffu);
            uint32_t z = uint32_t(x[i + 397]) ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0);
            x.push_back(z);
            z ^= z >> 11; z ^= (z << 7) & 0x9d2c5680u; z ^= (z << 15) & 0xefc60000u; z ^= z >> 18;
            o.push_back(z);
        }
        return o;
    }
}
// ------------------------------------------------------------------ MTGP
#elif defined(GEN_MTGP)
#include "MTGP32search.hpp"
namespace smp {
    typedef uint32_t U; typedef mtgp::mtgp32 G; enum { W = 32, WPR = 1, HASREV = 1, ONEBIT = 0, EXPL = 0 };
    // p: mexp, pos, sh1, sh2, tbl[4], tmp[4]
    inline std::vector<Conf> confs(bool thorough) {
        std::vector<Conf> c;
        auto put = [&](int mexp, int pos, int sh1, int sh2, int t, bool temp) {
            Conf f; f.name = "mtgp"; f.p = {uint64_t(mexp), uint64_t(pos), uint64_t(sh1), uint64_t(sh2)};
            for (int i = 0; i < 4; i++) {
                // low nibbles that keep the recurrence invertible, except for every sixth table
                uint32_t v = uint32_t(mixk(100 * t + i)) & ~uint32_t(1u << i);
                f.p.push_back(t % 6 == 5 ? v : v & ~uint32_t(15 & ~((1u << i) - 1)));
            }
            for (int i = 0; i < 4; i++) f.p.push_back(temp ? uint32_t(mixk(1000 + 100 * t + i)) : 0);
            c.push_back(f);
        };
        for (int mexp : {107, 127}) for (int t = 0; t < 6; t++) { put(mexp, 3, 13, 4, t, false); put(mexp, 3, 13, 4, t, true); }
        put(127, 3, 5, 9, 7, true); put(127, 3, 30, 1, 8, true); put(107, 3, 1, 31, 9, true);
        put(521, 3, 13, 4, 1, true); put(521, 7, 13, 4, 2, true); put(521, 16, 13, 4, 3, false);
        if (thorough) { for (int pos = 3; pos < 17; pos += 2) put(521, pos, 13, 4, 10 + pos, pos & 2); put(607, 8, 13, 4, 3, true); put(1279, 17, 13, 4, 3, true); }
        return c;
    }
    inline uint32_t tblx(const Conf& c, int off, uint32_t k) { uint32_t r = 0; for (int i = 0; i < 4; i++) if (k >> i & 1) r ^= uint32_t(c.p[off + i]); return r; }
    inline G *make(const Conf& c) {
        G *g = new G(int(c.p[0]), 5);
        mtgp::mtgp_param<uint32_t> p = g->get_param();
        p.pos = int(c.p[1]); p.sh1 = int(c.p[2]); p.sh2 = int(c.p[3]);
        for (int i = 0; i < 4; i++) { p.tbl[i] = uint32_t(c.p[4 + i]); p.tmp_tbl[i] = 0; }
        for (uint32_t k = 0; k < 16; k++) { p.p[k] = tblx(c, 4, k); p.tp[k] = 0; }
        g->set_param(p);
        for (int i = 0; i < 4; i++) g->setTemperingPattern(~0u, uint32_t(c.p[8 + i]), i);
        g->setUpTempering();
        g->seed(1);
        return g;
    }
    inline void seedk(G& g, uint64_t k) { g.seed(uint32_t(k)); }
    inline int nwords(const Conf& c) { return int(c.p[0] / 32 + 1); }
    inline std::vector<int> live(const Conf& c) { std::vector<int> l; int n = nwords(c), r = n * 32 - int(c.p[0]); for (int i = r; i < 32 * n; i++) l.push_back(i); return l; }
    inline Row refwin(const Conf& c, std::vector<uint64_t> x, int K) {
        int n = nwords(c), r = n * 32 - int(c.p[0]); Row o; int pos = int(c.p[1]), sh1 = int(c.p[2]), sh2 = int(c.p[3]);
        uint32_t mask = ~uint32_t((uint64_t(1) << r) - 1);
        for (int i = 0; i < K; i++) {
            uint32_t a = (uint32_t(x[i]) & mask) ^ uint32_t(x[i + 1]);
            a ^= a << sh1;
            uint32_t y = a ^ (uint32_t(x[i + pos]) >> sh2);
            uint32_t z = y ^ tblx(c, 4, y & 15);
            x.push_back(z);
            uint32_t t = uint32_t(x[i + pos - 1]);
            t ^= t >> 16; t ^= t >> 8;
            o.push_back(z ^ tblx(c, 8, t & 15));
        }
        return o;
    }
}
// ------------------------------------------------------------------ TinyMT
#elif defined(GEN_TINY)
#include "tinymt32search.hpp"
namespace smp {
    typedef uint32_t U; typedef tinymt::tinymt32 G; enum { W = 32, WPR = 1, HASREV = 1, ONEBIT = 0, EXPL = 1 };
    // p: mat1, mat2, tmat
    inline std::vector<Conf> confs(bool thorough) {
        std::vector<Conf> c;
        for (uint32_t t : {0u, 0x3793fdffu, 0x80000001u}) c.push_back({"tiny", {0x8f7011ee, 0xfc78ff1f, t}});
        for (int i = 0; i < (thorough ? 24 : 8); i++) c.push_back({"tiny", {uint32_t(mixk(3 * i)), uint32_t(mixk(3 * i + 1)) | 1, uint32_t(mixk(3 * i + 2))}});
        return c;
    }
    inline G *make(const Conf& c) {
        tinymt::tinymt32_param p; p.id = 3; p.mat1 = uint32_t(c.p[0]); p.mat2 = uint32_t(c.p[1]); p.tmat = uint32_t(c.p[2]);
        G *g = new G(p); g->seed(1); return g;
    }
    inline void seedk(G& g, uint64_t k) { g.seed(uint32_t(k)); }
    inline int nwords(const Conf&) { return 4; }
    inline std::vector<int> live(const Conf&) { std::vector<int> l; for (int i = 0; i < 128; i++) if (i != 31) l.push_back(i); return l; }
    inline void setstate(const Conf&, G& g, const std::vector<uint64_t>& s) { uint32_t v[4]; for (int i = 0; i < 4; i++) v[i] = uint32_t(s[i]); g.set_status(v); }
    inline Row refwin(const Conf& c, std::vector<uint64_t> x, int K) {
        uint32_t s[4]; for (int i = 0; i < 4; i++) s[i] = uint32_t(x[i]);
        Row o;
        for (int i = 0; i < K; i++) {      // TinyMT32, tinymt32_next_state and the GF(2)-linear temper
            uint32_t y = s[3], X = (s[0] & 0x7fffffff) ^ s[1] ^ s[2];
            X ^= X << 1; y ^= (y >> 1) ^ X;
            s[0] = s[1]; s[1] = s[2]; s[2] = X ^ (y << 10); s[3] = y;
            if (y & 1) { s[1] ^= uint32_t(c.p[0]); s[2] ^= uint32_t(c.p[1]); }
            uint32_t t0 = s[3], t1 = s[0] ^ (s[2] >> 8);
            t0 ^= t1; if (t1 & 1) t0 ^= uint32_t(c.p[2]);
            o.push_back(t0);
        }
        return o;
    }
}
// ------------------------------------------------------------------ RMT
#elif defined(GEN_RMT)
#include "rmt64.hpp"
namespace smp {
    typedef uint64_t U; typedef RMT64Search G; enum { W = 64, WPR = 1, HASREV = 1, ONEBIT = 1, EXPL = 0 };
    // p: mexp, pos, mata, maskb, maskc
    inline std::vector<Conf> confs(bool thorough) {
        std::vector<Conf> c;
        auto put = [&](int mexp, int pos, uint64_t a, uint64_t b, uint64_t m) { c.push_back({"rmt", {uint64_t(mexp), uint64_t(pos), a, b, m}}); };
        for (int mexp : {127, 150, 200}) for (int pos = 0; pos <= mexp / 64; pos++) for (uint64_t a : {0x8000000000000000ull, 0xb0f1a3c77c2e9d15ull}) {
            put(mexp, pos, a, 0, 0); put(mexp, pos, a, 0x7fffffdcbe0a0000ull, 0xfff7eee000000000ull);
        }
        put(521, 3, 0xcf1af3c6a0d2e3b1ull, 0x3aabb1bfb00e0000ull, 0xe37d2a0000000000ull); put(521, 8, 0xffd1000000000003ull, 0, 0);
        if (thorough) for (int pos = 0; pos < 9; pos += 2) put(521, pos, mixk(pos) | 1ull << 63, mixk(pos + 50) << 17, mixk(pos + 70) << 37);
        return c;
    }
    inline G *make(const Conf& c) { return new G(int(c.p[0]), int(c.p[1]), c.p[2], c.p[3], c.p[4], 1); }
    inline void seedk(G& g, uint64_t k) { g.seed(k); }
    inline void onebit(G& g, int b) { g.setOneBit(b); }
    inline int nwords(const Conf& c) { return int(c.p[0] / 64 + 1); }
    inline std::vector<int> live(const Conf& c) { std::vector<int> l; for (int i = 0; i < 64 * nwords(c); i++) l.push_back(i); return l; }
    inline Row refwin(const Conf& c, std::vector<uint64_t> x, int K) {
        Row o;
        for (int i = 0; i < K; i++) {
            uint64_t a = x[i], y = x[i + c.p[1]];
            y ^= y << 17;
            uint64_t z = y ^ (a >> 1) ^ ((a & 1) ? c.p[2] : 0);
            x.push_back(z);
            z ^= (z >> 29) & 0x5555555555555555ull; z ^= (z << 17) & c.p[3]; z ^= (z << 37) & c.p[4]; z ^= z >> 43;
            o.push_back(z);
        }
        return o;
    }
}
// ------------------------------------------------------------------ SFMT
#elif defined(GEN_SFMT)
#include "sfmtsearch.hpp"
namespace smp {
    typedef MTToolBox::w128_t U; typedef MTToolBox::sfmt G; enum { W = 128, WPR = 2, HASREV = 1, ONEBIT = 1, EXPL = 0 };
    // p: mexp, pos1, sl1, sl2, sr1, sr2, msk1..4
    inline std::vector<Conf> confs(bool thorough) {
        std::vector<Conf> c;
        auto put = [&](int mexp, int pos, int sl1, int sl2, int sr1, int sr2, int t) {
            Conf f; f.name = "sfmt"; f.p = {uint64_t(mexp), uint64_t(pos), uint64_t(sl1), uint64_t(sl2), uint64_t(sr1), uint64_t(sr2)};
            for (int i = 0; i < 4; i++) f.p.push_back(uint32_t(mixk(900 + 4 * t + i) | mixk(950 + 4 * t + i)));
            c.push_back(f);
        };
        put(300, 1, 18, 1, 11, 1, 0); put(400, 1, 15, 3, 3, 5, 1); put(400, 2, 1, 7, 31, 3, 2); put(500, 2, 31, 5, 1, 7, 3); put(607, 2, 15, 3, 13, 3, 4);
        if (thorough) { put(607, 1, 18, 1, 11, 1, 5); put(607, 3, 7, 5, 19, 7, 6); put(700, 4, 14, 1, 7, 1, 7); put(1279, 7, 14, 3, 5, 1, 8); }
        return c;
    }
    inline MTToolBox::sfmt_param param(const Conf& c) {
        MTToolBox::sfmt_param p; p.mexp = int(c.p[0]); p.pos1 = int(c.p[1]); p.sl1 = int(c.p[2]); p.sl2 = int(c.p[3]); p.sr1 = int(c.p[4]); p.sr2 = int(c.p[5]);
        p.msk1 = uint32_t(c.p[6]); p.msk2 = uint32_t(c.p[7]); p.msk3 = uint32_t(c.p[8]); p.msk4 = uint32_t(c.p[9]);
        return p;
    }
    inline U wseed(uint64_t k) { U w; w.u64[0] = k; w.u64[1] = mixk(k); return w; }
    inline void seedk(G& g, uint64_t k) { g.seed(wseed(k)); }
    inline G *make(const Conf& c) { G *g = new G(param(c)); seedk(*g, 1); return g; }
    inline void onebit(G& g, int b) { g.setOneBit(b); }
    inline int nwords(const Conf& c) { return 2 * int(c.p[0] / 128 + 1); }
    inline std::vector<int> live(const Conf& c) { std::vector<int> l; for (int i = 0; i < 64 * nwords(c); i++) l.push_back(i); return l; }
    typedef unsigned __int128 Q;
    inline Q per32(Q v, int sh, bool left) { Q r = 0; for (int i = 0; i < 4; i++) { uint32_t x = uint32_t(v >> (32 * i)); x = left ? x << sh : x >> sh; r |= Q(x) << (32 * i); } return r; }
    inline Row refwin(const Conf& c, std::vector<uint64_t> xs, int K) {
        int n = nwords(c) / 2; std::vector<Q> x; for (int i = 0; i < n; i++) x.push_back(Q(xs[2 * i + 1]) << 64 | xs[2 * i]);
        Q msk = 0; for (int i = 0; i < 4; i++) msk |= Q(c.p[6 + i]) << (32 * i);
        Row o;
        for (int i = 0; i < K; i++) {
            Q a = x[i], b = x[i + c.p[1]], cc = x[i + n - 2], d = x[i + n - 1];
            Q z = a ^ (a << (8 * c.p[3])) ^ (per32(b, int(c.p[4]), false) & msk) ^ (cc >> (8 * c.p[5])) ^ per32(d, int(c.p[2]), true);
            x.push_back(z); o.push_back(uint64_t(z)); o.push_back(uint64_t(z >> 64));
        }
        return o;
    }
    inline void rev(G& g, bool on) { if (on) g.set_reverse_bit(); else g.reset_reverse_bit(); }
}
// ------------------------------------------------------------------ dSFMT
#elif defined(GEN_DSFMT)
#include "dSFMTsearch.hpp"
namespace smp {
    typedef MTToolBox::w128_t U; typedef MTToolBox::dSFMT G; enum { W = 128, WPR = 2, HASREV = 0, ONEBIT = 1, EXPL = 0 };
    // p: mexp, pos1, sl1, msk1, msk2
    inline std::vector<Conf> confs(bool thorough) {
        std::vector<Conf> c;
        const uint64_t m52 = (uint64_t(1) << 52) - 1;
        auto put = [&](int mexp, int pos, int sl, int t) { c.push_back({"dsfmt", {uint64_t(mexp), uint64_t(pos), uint64_t(sl), (mixk(700 + t) | mixk(720 + t)) & m52, (mixk(740 + t) | mixk(760 + t)) & m52}}); };
        put(340, 1, 19, 0); put(440, 1, 51, 1); put(521, 2, 3, 2); put(521, 1, 40, 3);
        if (thorough) { put(607, 2, 19, 4); put(607, 3, 1, 5); put(1279, 9, 19, 6); }
        return c;
    }
    inline U wseed(uint64_t k) { U w; w.u64[0] = k; w.u64[1] = mixk(k); return w; }
    inline void seedk(G& g, uint64_t k) { g.seed(wseed(k)); }
    inline MTToolBox::dSFMT_param param(const Conf& c) {
        MTToolBox::dSFMT_param p; p.mexp = int(c.p[0]); p.pos1 = int(c.p[1]); p.sl1 = int(c.p[2]); p.msk1 = c.p[3]; p.msk2 = c.p[4];
        return p;
    }
    inline G *make(const Conf& c) { G *g = new G(param(c)); seedk(*g, 1); return g; }
    inline void onebit(G& g, int b) { g.setOneBit(b); }
    inline int nwords(const Conf& c) { return 2 * int((c.p[0] - 128) / 104 + 1) + 2; }      // the last two: the lung
    inline std::vector<int> live(const Conf& c) { std::vector<int> l; int n = nwords(c); for (int i = 0; i < 64 * n; i++) if (i % 64 < 52 || i / 64 >= n - 2) l.push_back(i); return l; }
    inline Row refwin(const Conf& c, std::vector<uint64_t> xs, int K) {
        int n = nwords(c) / 2 - 1; uint64_t L[2] = { xs[2 * n], xs[2 * n + 1] };
        std::vector<uint64_t> x(xs.begin(), xs.begin() + 2 * n);
        Row o;
        for (int i = 0; i < K; i++) {
            uint64_t M[2];
            for (int h = 0; h < 2; h++) {
                uint64_t l = L[1 - h];
                M[h] = (x[2 * i + h] << c.p[2]) ^ (l >> 32 | l << 32) ^ x[2 * (i + c.p[1]) + h];
            }
            for (int h = 0; h < 2; h++) {
                L[h] = M[h];
                x.push_back((L[h] >> 12) ^ (L[h] & c.p[3 + h]) ^ x[2 * i + h]);
                o.push_back(x.back());
            }
        }
        return o;
    }
    inline void rev(G&, bool) {}
}
// ------------------------------------------------------------------ xorshift
#elif defined(GEN_XS)
#define main sample_main
#if GEN_XS == 2
#include "xorshift-2.cpp"
#elif GEN_XS == 3
#include "xorshift-3.cpp"
#elif GEN_XS == 4
#include "xorshift-4.cpp"
#elif GEN_XS == 5
#include "xorshift-5.cpp"
#endif
#undef main
namespace smp {
    typedef uint32_t U; typedef XorShift G; enum { W = 32, WPR = 1, HASREV = 0, ONEBIT = 0, EXPL = 0 };
    // p: pattern (8 = the original xor128 form), a, b, c
    inline std::vector<Conf> confs(bool thorough) {
        std::vector<Conf> c;
        auto put = [&](int pat, int a, int b, int d) { c.push_back({"xs", {uint64_t(pat), uint64_t(a), uint64_t(b), uint64_t(d)}}); };
        (void)thorough;
#if GEN_XS == 2
        put(8, 5, 14, 1);
#elif GEN_XS == 5
        put(9, 20, 11, 7);
#elif GEN_XS == 3
        put(8, 11, 8, 19); put(8, 5, 14, 1); put(8, 15, 4, 21); put(8, 31, 31, 31); put(8, 1, 30, 2);
        if (thorough) for (int a = 1; a < 32; a += 5) for (int b = 1; b < 32; b += 6) put(8, a, b, (a * b) % 31 + 1);
#else
        for (int pat = 0; pat < 8; pat++) { put(pat, 20, 11, 7); put(pat, 3, 30, 17); put(pat, 1, 2, 31); }
        if (thorough) for (int pat = 0; pat < 8; pat++) for (int a = 1; a < 32; a += 7) put(pat, a, (a * 5) % 31 + 1, (a * 11) % 31 + 1);
#endif
        return c;
    }
    inline G *make(const Conf& c) {
        G *g = new G(1);
#if GEN_XS == 3
        ListPG<MTToolBox::ParameterGenerator> pg({c.p[1] | c.p[2] << 5 | c.p[3] << 10});
        g->setUpParam(pg);
#elif GEN_XS == 4
        ListPG<MTToolBox::ParameterGenerator> pg({c.p[3] | c.p[2] << 5 | c.p[1] << 10 | c.p[0] << 15});
        g->setUpParam(pg);
#else
        (void)c;
#endif
        return g;
    }
    inline void seedk(G& g, uint64_t k) { g.seed(uint32_t(k)); }
    inline int nwords(const Conf&) { return 4; }
    inline std::vector<int> live(const Conf&) { std::vector<int> l; for (int i = 0; i < 128; i++) l.push_back(i); return l; }
    inline uint32_t xl(uint32_t t, uint64_t s) { return t ^ t << s; }
    inline uint32_t xr(uint32_t t, uint64_t s) { return t ^ t >> s; }
    inline Row refwin(const Conf& cf, std::vector<uint64_t> st, int K) {
        uint32_t x = uint32_t(st[0]), y = uint32_t(st[1]), z = uint32_t(st[2]), w = uint32_t(st[3]);
        uint64_t a = cf.p[1], b = cf.p[2], c = cf.p[3]; Row o;
        for (int i = 0; i < K; i++) {
            uint32_t g, h;
            switch (cf.p[0]) {
            case 0: g = xl(xr(w, a), b); h = xl(x, c); break;
            case 1: g = xl(xr(w, a), b); h = xr(x, c); break;
            case 2: g = xr(xl(w, a), b); h = xl(x, c); break;
            case 3: g = xr(xl(w, a), b); h = xr(x, c); break;
            case 4: g = xr(w, a); h = xl(xr(x, b), c); break;
            case 5: g = xr(w, a); h = xr(xl(x, b), c); break;
            case 6: g = xl(w, a); h = xl(xr(x, b), c); break;
            case 7: g = xl(w, a); h = xr(xl(x, b), c); break;
            case 8: g = xr(w, c); h = xr(xl(x, a), b); break;          // Marsaglia's xor128
            default: g = xl(w, a); h = xr(xl(x, b), c); break;         // the best one found
            }
            x = y; y = z; z = w; w = g ^ h;
            o.push_back(w);
        }
        return o;
    }
}
#endif
namespace smp {
#if !defined(GEN_SFMT) && !defined(GEN_DSFMT)
    inline void putw(Row& r, const U& u) { r.push_back(uint64_t(u)); }
#if defined(GEN_XS) || defined(GEN_MT1)
    inline void rev(G&, bool) {}
#else
    inline void rev(G& g, bool on) { if (on) g.setReverseOutput(); else g.resetReverseOutput(); }
#endif
#else
    inline void putw(Row& r, const U& u) { r.push_back(u.u64[0]); r.push_back(u.u64[1]); }
#endif
    typedef MTToolBox::EquidistributionCalculatable<U> EC;
    inline G *cl(const G& g) { return dynamic_cast<G *>(static_cast<EC *>(g.clone())); }
    inline Row window(const G& g, int K) {                      // what a copy says it will output
        std::unique_ptr<G> c(cl(g)); Row r;
        for (int i = 0; i < K; i++) putw(r, c->generate());
        return r;
    }
    inline bool zero(const Row& r) { for (auto x : r) if (x) return false; return true; }
    inline void xorto(Row& a, const Row& b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; }
    inline int lowbit(const Row& r) { for (size_t i = 0; i < r.size(); i++) if (r[i]) return int(64 * i + __builtin_ctzll(r[i])); return -1; }
    inline std::string hexw(const Row& r, size_t i) { return WPR == 1 ? mc::hex(r[i]) : mc::hex(r[2 * i + 1]) + ":" + mc::hex(r[2 * i]); }
    inline std::string diff(const Row& want, const Row& got) {
        for (size_t i = 0; i < want.size() / WPR; i++) if (hexw(want, i) != hexw(got, i)) return "output " + std::to_string(i) + " is " + hexw(got, i) + ", expected " + hexw(want, i);
        return "equal";
    }
    // a spanning set of states, in echelon form, made of real objects
    struct Basis {
        const Conf& c; int K; std::vector<Row> rows; std::vector<int> piv; std::vector<std::unique_ptr<G>> objs;
        std::vector<std::unique_ptr<G>> kernel;                // objects reduced to nothing by adding others
        Basis(const Conf& cf, int k) : c(cf), K(k) {}
        void reduce(Row& r, G& g) const {
            for (size_t i = 0; i < rows.size(); i++) if (r[piv[i] >> 6] >> (piv[i] & 63) & 1) { xorto(r, rows[i]); g.add(*objs[i]); }
        }
        bool insert(G *g) {                                     // takes g
            std::unique_ptr<G> o(g);
            Row r = window(*o, K);
            reduce(r, *o);
            int p = lowbit(r);
            if (p < 0) { kernel.push_back(std::move(o)); return false; }
            rows.push_back(r); piv.push_back(p); objs.push_back(std::move(o));
            return true;
        }
        int rank() const { return int(rows.size()); }
        // an object whose outputs are the given ones, or null
        G *conjure(Row target) const {
            std::unique_ptr<G> a(make(c)); a->setZero();
            reduce(target, *a);
            if (!zero(target)) return nullptr;
            return a.release();
        }
        void fill(int bits) {
            int idle = 0;
            for (int a = 0; idle < 40 && a < 4 * bits + 200; a++) {
                G *g = make(c); seedk(*g, mixk(a));
                int st = a % (4 * nwords(c) + 7);
                for (int i = 0; i < st; i++) g->generate();
                if (insert(g)) idle = 0; else idle++;
            }
#if defined(GEN_TINY)
            for (int x : live(c)) { G *g = make(c); std::vector<uint64_t> st(4, 0); st[x / 32] = 1u << (x % 32); setstate(c, *g, st); insert(g); }
#endif
#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
            for (int b = 0; b < bits; b++) { G *g = make(c); onebit(*g, b); insert(g); }
#endif
        }
    };
    inline int winlen(const Conf& c) { int n = nwords(c) / WPR; return n > 100 ? n + 20 : 3 * n + 6; }
}
#endif
