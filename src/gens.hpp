// Generators used to drive the library: each is a GF(2)-linear machine given by
// an explicit transition and output map, so that its true behaviour is known.
#ifndef GENS_HPP
#define GENS_HPP
#include <memory>
#include <vector>
#include <MTToolBox/AbstractGenerator.hpp>
#include <MTToolBox/EquidistributionCalculatable.hpp>
#include "oracle.hpp"

namespace gen {
    template<class U> U topmask(int v) {           // the v most significant bits
        const int w = int(sizeof(U) * 8);
        U all = U(~U(0));
        if (v <= 0) return U(0);
        return v >= w ? all : U(all << (w - v));
    }
    // columns of the transition and of the output map
    template<class U> struct Spec {
        int n;
        uint64_t t[64];
        U o[64];
        int declared;          // what bitSize() says
        bool before;           // output taken before the step
        Spec() : n(0), declared(0), before(false) { for (int i = 0; i < 64; i++) { t[i] = 0; o[i] = 0; } }
        uint64_t step(uint64_t x) const { uint64_t r = 0; for (; x; x &= x - 1) r ^= t[__builtin_ctzll(x)]; return r; }
        U out(uint64_t x) const { U r = 0; for (; x; x &= x - 1) r = U(r ^ o[__builtin_ctzll(x)]); return r; }
    };
    // companion matrix of the monic m of degree n acting on F[t]/m, x = the class of a polynomial
    template<class U> void companion(Spec<U>& s, uint64_t m) {
        s.n = s.declared = orc::deg64(m);
        for (int i = 0; i < s.n; i++) {
            uint64_t c = uint64_t(1) << (i + 1);
            if (i == s.n - 1) c ^= m;
            s.t[i] = c;
        }
    }
    // A deliberately minimal AbstractGenerator
    template<class U> class Plain : public MTToolBox::AbstractGenerator<U> {
    public:
        const Spec<U>& s; uint64_t x; uint64_t calls;
        Plain(const Spec<U>& sp, uint64_t x0) : s(sp), x(x0), calls(0) {}
        U generate() {
            calls++;
            if (s.before) { U r = s.out(x); x = s.step(x); return r; }
            x = s.step(x); return s.out(x);
        }
        void seed(U v) { x = uint64_t(v); }
        int bitSize() const { return s.declared; }
    };
    template<class U> class Lin : public MTToolBox::EquidistributionCalculatable<U> {
    public:
        const Spec<U>* s; uint64_t x;
        static long live;
        Lin(const Spec<U>& sp, uint64_t x0) : s(&sp), x(x0) { live++; }
        Lin(const Lin& o) : MTToolBox::EquidistributionCalculatable<U>(), s(o.s), x(o.x) { live++; }
        ~Lin() { live--; }
        U generate() {
            if (s->before) { U r = s->out(x); x = s->step(x); return r; }
            x = s->step(x); return s->out(x);
        }
        U generate(int v) { return U(generate() & topmask<U>(v)); }
        void seed(U v) { x = uint64_t(v); }
        int bitSize() const { return s->declared; }
        void setUpParam(MTToolBox::ParameterGenerator&) {}
        const std::string getHeaderString() { return "lin"; }
        const std::string getParamString() { return "lin"; }
        Lin *clone() const { return new Lin(*this); }
        void add(MTToolBox::EquidistributionCalculatable<U>& o) { x ^= dynamic_cast<Lin&>(o).x; }
        void setZero() { x = 0; }
        bool isZero() const { return x == 0; }
    };
    template<class U> long Lin<U>::live = 0;

    // span of { T^i x0 } for i >= from
    template<class U> std::vector<uint64_t> cyclic(const Spec<U>& s, uint64_t x0, bool from1) {
        std::vector<uint64_t> basis, red;
        uint64_t x = from1 ? s.step(x0) : x0;
        for (int i = 0; i <= s.n; i++) {
            std::vector<uint64_t> r = basis; r.push_back(x);
            if (orc::rank64(r) == int(r.size())) basis.push_back(x); else break;
            x = s.step(x);
        }
        return basis;
    }
    // dimension of equidistribution with v-bit accuracy, straight from the definition: the
    // largest k such that k consecutive top-v-bit outputs take every value over the states reached
    template<class U> int brute_kv(const Spec<U>& s, uint64_t x0, int v) {
        std::vector<uint64_t> W = cyclic(s, x0, false);
        int d = int(W.size());
        if (d == 0) return 0;
        const int w = int(sizeof(U) * 8);
        // columns: for each basis vector, the concatenated outputs.  rows over basis coordinates
        std::vector<uint64_t> rows;             // each row: functional on the d coordinates
        std::vector<uint64_t> cur = W;
        int k = 0;
        for (;; k++) {
            if ((k + 1) * v > d) break;
            std::vector<U> out(d);
            for (int j = 0; j < d; j++) {
                if (s.before) { out[j] = s.out(cur[j]); cur[j] = s.step(cur[j]); }
                else { cur[j] = s.step(cur[j]); out[j] = s.out(cur[j]); }
            }
            for (int b = 0; b < v; b++) {
                uint64_t r = 0;
                for (int j = 0; j < d; j++) if (out[j] >> (w - 1 - b) & 1) r |= uint64_t(1) << j;
                rows.push_back(r);
            }
            if (orc::rank64(rows) != int(rows.size())) break;
        }
        return k;
    }
    // The same from an output stream o[0], o[1], ... of a machine with at most n state bits: row (j, b) is
    // bit b (from the top) of o[i+j] over the columns i < n, because the shifted streams span all that the
    // state can produce.  getbit(i, b) reads bit b of o[i].
    template<class F> int stream_kv(F getbit, int n, int v, int kmax = -1) {
        orc::Echelon e;
        const int words = (n + 63) / 64;
        for (int k = 0; ; k++) {
            if ((k + 1) * v > n || (kmax >= 0 && k == kmax)) return k;
            for (int b = 0; b < v; b++) {
                std::vector<uint64_t> row(words, 0);
                for (int i = 0; i < n; i++) if (getbit(i + k, b)) row[i >> 6] |= uint64_t(1) << (i & 63);
                if (!e.add(row)) return k;
            }
        }
    }
    template<class U> int stream_kv(const std::vector<U>& o, int n, int v) {
        const int w = int(sizeof(U) * 8);
        return stream_kv([&](int i, int b) { return int(o[i] >> (w - 1 - b) & 1); }, n, v);
    }
    // all k(v), v = 1..maxv, of any generator object, through its full-width generate()
    template<class U, class G> std::vector<int> all_kv(const G& g, int n, int maxv) {
        G *c = static_cast<G *>(g.clone());
        std::vector<U> o;
        for (int i = 0; i < 2 * n + 2; i++) o.push_back(c->generate());
        delete c;
        std::vector<int> k(maxv);
        for (int v = 1; v <= maxv; v++) k[v - 1] = stream_kv<U>(o, n, v);
        return k;
    }
}
#endif
