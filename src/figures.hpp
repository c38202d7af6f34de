// What a parameter set amounts to, computed from the published recurrence alone: minimal
// polynomial, the factor of the exponent's degree, dimensions of equidistribution by rank.
#ifndef FIGURES_HPP
#define FIGURES_HPP
#include "line.hpp"
#include <NTL/GF2XFactoring.h>
#if defined(GEN_DSFMT)
#include "affine.hpp"
#endif
namespace fig {
    using NTL::GF2X; using NTL::GF2; using NTL::Vec; using NTL::Pair;
    inline int wbits() { return W == 128 ? 128 : int(W); }
    inline vector<uint64_t> dense(const Conf& c, int t) {
        vector<uint64_t> x; int n = nwords(c);
        for (int i = 0; i < n; i++) {
            uint64_t v = mixk(uint64_t(100003) * (t + 1) + i);
            if (W == 32) v &= 0xffffffff;
#if defined(GEN_DSFMT)
            if (i < n - 2) v &= 0xfffffffffffffull;
#endif
            x.push_back(v);
        }
        return x;
    }
    inline int bit(const Row& o, long i, int b) { return int(o[i * WPR + b / 64] >> (b % 64) & 1); }
    // sum of p_i o_{j+i} for j < len
    inline Row filter(const GF2X& p, const Row& o, long len) {
        Row r(len * WPR, 0);
        for (long i = 0; i <= deg(p); i++) if (IsOne(coeff(p, i))) for (long j = 0; j < len * WPR; j++) r[j] ^= o[i * WPR + j];
        return r;
    }
    // the least polynomial that annihilates the outputs from many dense states
    inline GF2X minimal(const Conf& c, long N, int seeds) {
        GF2X l; SetCoeff(l, 0);
        for (int t = 0; t < seeds; t++) {
            Row o = refwin(c, dense(c, t), int(3 * N + 8));
            Row s = filter(l, o, 2 * N + 4);
            while (!zero(s)) {
                int p = lowbit(s) % (64 * WPR); Vec<GF2> v; v.SetLength(2 * N);
                for (long i = 0; i < 2 * N; i++) v[i] = long(bit(s, i, p));
                GF2X m; MinPolySeq(m, v, N);
                if (deg(m) < 1) break;
                l *= m; s = filter(l, o, 2 * N + 4);
                if (deg(l) > N) return l;
            }
            if (deg(l) == N) break;
        }
        return l;
    }
    struct Set {
        Conf c; int mexp; long N; GF2X m, f, q; string err; Row part;      // part: outputs of the component kept by f
        Set(const Conf& conf, int me) : c(conf), mexp(me) {
            N = long(live(c).size());
#if defined(GEN_MT2) || defined(GEN_MT1) || defined(GEN_MTGP) || defined(GEN_TINY) || defined(GEN_XS)
            N = mexp;
#endif
            m = minimal(c, N, N == mexp ? 1 : 12);
            if (N == mexp) {
                if (deg(m) != mexp || !IterIrredTest(m)) { err = "the recurrence has no period of 2^" + to_string(mexp) + "-1"; return; }
                f = m; SetCoeff(q, 0);
            } else {
                Vec<Pair<GF2X, long> > fs; CanZass(fs, m);
                bool have = false; for (long i = 0; i < fs.length(); i++) if (deg(fs[i].a) == mexp && fs[i].b == 1) { f = fs[i].a; have = true; }
                if (!have) { err = "the recurrence has no factor of degree " + to_string(mexp); return; }
                q = m / f;
            }
            Row o = refwin(c, dense(c, 1), int(2 * mexp + 400 + deg(q)));
            part = filter(q, o, 2 * mexp + 390);
        }
    };
    // the elements read off a word: n of them, each of the given width, the significant bit at `top`
    struct Grain { int n, width, top; bool lsb; };
    inline int ebit(const Row& o, long w, const Grain& g, int e, int b) {
        int pos = g.lsb ? b : g.top - b;
        if (g.width == 32 && WPR == 2) return bit(o, w, 32 * e + pos);
        if (g.width == 128 || WPR == 1) return bit(o, w, pos);
        return bit(o, w, 64 * e + pos);
    }
    // every k(v), v = 1..maxv, over the mexp-dimensional component
    inline vector<int> kv(const Set& s, const Grain& g, int maxv) {
        int d = s.mexp, words = (d + 63) / 64; vector<int> r;
        for (int v = 1; v <= maxv; v++) {
            int best = 1 << 30;
            for (int p = 0; p < g.n; p++) {
                orc::Echelon e; int k = 0; bool more = true;
                while (more && (k + 1) * v <= d && k < best) {
                    for (int b = 0; b < v && more; b++) {
                        Row row(words, 0); int el = (p + k) % g.n, bl = (p + k) / g.n;
                        for (int i = 0; i < d; i++) if (ebit(s.part, i + bl, g, el, b)) row[i >> 6] |= uint64_t(1) << (i & 63);
                        more = e.add(row);
                    }
                    k += more;
                }
                best = std::min(best, k);
            }
            r.push_back(best);
        }
        return r;
    }
    inline int defect(int d, const vector<int>& k) { int t = 0; for (size_t v = 0; v < k.size(); v++) t += d / int(v + 1) - k[v]; return t; }
    inline Grain plain() { return Grain{1, W, W - 1, false}; }
#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
    // the parity vector vanishes on the part the period must not rest on, and not everywhere
    inline bool dot(const Row& w, const Row& p) { uint64_t x = 0; for (size_t i = 0; i < w.size(); i++) x ^= w[i] & p[i]; return __builtin_parityll(x); }
    inline string parity(const Set& s, const Row& p) {
        if (zero(p)) return "the parity vector is zero";
        bool some = false;
#if defined(GEN_DSFMT)
        Model M(s.c); int L = 2 * M.n;
        for (int b = 0; b < 104 * M.n + 128; b++) {
            Row x = M.zero(); if (b < 104 * M.n) x[b / 52] = 1ull << (b % 52); else x[L + (b - 104 * M.n) / 64] = 1ull << ((b - 104 * M.n) % 64);
            some |= dot(Row(x.begin() + L, x.begin() + L + 2), p);
            Row y = M.apply(s.f, x);
            if (dot(Row(y.begin() + L, y.begin() + L + 2), p)) return "the parity vector reacts to a state of short period";
        }
#else
        Conf c = s.c;
#if defined(GEN_RMT)
        c.p[3] = c.p[4] = 0;
#endif
        for (int b : live(c)) {
            vector<uint64_t> x(nwords(c), 0); x[b / 64] = 1ull << (b % 64);
            Row o = refwin(c, x, int(deg(s.f)) + 6);
#if defined(GEN_RMT)
            for (auto& t : o) { t ^= t >> 43; uint64_t z = t; for (int i = 0; i < 3; i++) z = t ^ ((z >> 29) & 0x5555555555555555ull); t = z; }
#endif
            for (int j = 0; j < 3; j++) some |= dot(Row(o.begin() + j * WPR, o.begin() + (j + 1) * WPR), p);
            Row y = filter(s.f, o, 4);
            for (int j = 0; j < 4; j++) if (dot(Row(y.begin() + j * WPR, y.begin() + (j + 1) * WPR), p)) return "the parity vector reacts to a state of short period";
        }
#endif
        return some ? "" : "the parity vector reacts to nothing";
    }
#endif
#if defined(GEN_DSFMT)
    // the only point of the large component the affine recurrence reproduces
    inline Row fixpoint(const Set& s) {
        Model M(s.c); GF2X all = M.minimal(), one, t1; SetCoeff(t1, 0); SetCoeff(t1, 1);
        GF2X quo = all / s.f, e = quo * InvMod(quo % s.f, s.f), h = InvMod(t1 % s.f, s.f);
        Row f = M.apply(h, M.apply(e, M.constant()));
        return Row(f.begin() + 2 * M.n, f.begin() + 2 * M.n + 2);
    }
#endif
}
#endif
