// Generators whose parameter is an index into a list of candidate machines, and the
// parameter stream that feeds them: a finite list that counts what is drawn.
#ifndef CAND_HPP
#define CAND_HPP
#include "gens.hpp"
#include <MTToolBox/ParameterGenerator.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
namespace gen {
    struct Stream : public MTToolBox::ParameterGenerator {
        std::vector<int> v; size_t pos; int over; bool wide;
        Stream() : pos(0), over(0), wide(false) {}
        int next() { if (pos < v.size()) return v[pos++]; over++; return 0; }
        uint32_t getUint32() { return uint32_t(next()); }
        uint64_t getUint64() { return uint64_t(next()); }
        void seed(uint64_t) {}
        void seed_array(const uint64_t *, int) {}
    };
    template<class U> struct Family { std::vector<Spec<U> > c; int size, mexp; uint64_t seedstate; Family() : size(0), mexp(0), seedstate(1) {} };
    template<class U> class Cand : public MTToolBox::ReducibleGenerator<U> {
    public:
        const Family<U>* f; int k; uint64_t x; int setups; U parity; bool drawn64;
        Cand(const Family<U>& ff) : f(&ff), k(-1), x(0), setups(0), parity(0), drawn64(false) {}
        const Spec<U>& s() const { return f->c[k < 0 ? 0 : k]; }
        U generate() {
            const Spec<U>& p = s();
            if (p.before) { U r = p.out(x); x = p.step(x); return r; }
            x = p.step(x); return p.out(x);
        }
        U generate(int v) { return U(generate() & topmask<U>(v)); }
        // only a state of the size of the machine; seeding 1 gives the family's seed state
        void seed(U v) { x = (uint64_t(v) & 1) ? f->seedstate : 0; }
        int bitSize() const { return f->size; }
        void setUpParam(MTToolBox::ParameterGenerator& g) { k = int(drawn64 ? g.getUint64() : g.getUint32()); setups++; }
        const std::string getHeaderString() { return "k"; }
        const std::string getParamString() { return "k=" + std::to_string(k); }
        Cand *clone() const { return new Cand(*this); }
        void add(MTToolBox::EquidistributionCalculatable<U>& o) { x ^= dynamic_cast<Cand&>(o).x; }
        void setZero() { x = 0; }
        bool isZero() const { return x == 0; }
        void setOneBit(int b) { x = uint64_t(1) << b; }
        U getParityValue() const { return U(x); }
        void setParityValue(U p) { parity = p; }
        int getMexp() const { return f->mexp; }
    };
    // machine F[t]/m with the functionals bits[b] = top coefficient of (d_b * x) on the top output bits
    template<class U> Spec<U> machine(uint64_t m, const std::vector<uint64_t>& d, bool before, bool low = false) {
        Spec<U> s;
        companion(s, m);
        s.before = before;
        const int w = int(sizeof(U) * 8);
        for (size_t b = 0; b < d.size(); b++) for (int j = 0; j < s.n; j++)
            if (orc::mod64(orc::mul64(d[b], uint64_t(1) << j), m) >> (s.n - 1) & 1)
                s.o[j] = U(s.o[j] | (U(1) << (low ? int(b) : w - 1 - int(b))));
        return s;
    }
    template<class U> std::vector<uint8_t> outbits(const Spec<U>& s, uint64_t x, int b, int len) {
        const int w = int(sizeof(U) * 8);
        std::vector<uint8_t> r;
        for (int i = 0; i < len; i++) {
            U o;
            if (s.before) { o = s.out(x); x = s.step(x); } else { x = s.step(x); o = s.out(x); }
            r.push_back(o >> (w - 1 - b) & 1);
        }
        return r;
    }
}
#endif
