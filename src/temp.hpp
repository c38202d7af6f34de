// A tempered generator over an explicit machine, with candidate recursions and tempering parameters that take
// effect only when prepared, a bit order, and an output word of B bits placed at the top of U.
#ifndef TEMP_HPP
#define TEMP_HPP
#include "cand.hpp"
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
namespace gen {
    template<class U> struct Design {
        std::vector<Spec<U> > c;      // candidate recursions; o[] gives the raw B-bit word in the low B bits
        int size, mexp, B;
        std::vector<int> shifts;      // y ^= (y << shifts[i]) & param[i]
        uint64_t seedstate;
        Design() : size(0), mexp(0), B(int(sizeof(U) * 8)), seedstate(1) {}
        U wmask() const { return topmask<U>(B) >> (sizeof(U) * 8 - B); }
        U temper(U y, const std::vector<U>& p) const {
            for (size_t i = 0; i < shifts.size(); i++) {
                U sh = shifts[i] >= int(sizeof(U) * 8) ? U(0) : U(y << shifts[i]);
                y = U(y ^ (sh & p[i] & wmask()));
            }
            return y;
        }
        U place(U y, bool rev) const {
            const int w = int(sizeof(U) * 8);
            if (rev) { U r = 0; for (int i = 0; i < B; i++) if (y >> i & 1) r = U(r | U(1) << (B - 1 - i)); y = r; }
            return U(y << (w - B));
        }
        std::vector<U> stream(int k, uint64_t x, const std::vector<U>& p, bool rev, int len) const {
            std::vector<U> o;
            const Spec<U>& s = c[k];
            for (int i = 0; i < len; i++) { x = s.step(x); o.push_back(place(temper(s.out(x), p), rev)); }
            return o;
        }
        // total defect of the tempered output up to accuracy v, relative to base, over at most n state dimensions
        int delta(int k, uint64_t x, const std::vector<U>& p, bool rev, int v, int base, int n) const {
            std::vector<U> o = stream(k, x, p, rev, 2 * n + 2);
            int sum = 0;
            for (int i = 1; i <= v; i++) sum += base / i - stream_kv<U>(o, n, i);
            return sum;
        }
    };
    template<class U> class Temp : public MTToolBox::ReducibleTemperingCalculatable<U> {
    public:
        const Design<U>* d; int k; uint64_t x; std::vector<U> raw, act; bool rev; U parity; int setups;
        static long live;
        Temp(const Design<U>& dd) : d(&dd), k(0), x(dd.seedstate), raw(dd.shifts.size(), 0), act(dd.shifts.size(), 0), rev(false), parity(0), setups(0) { live++; }
        Temp(const Temp& o) : MTToolBox::ReducibleTemperingCalculatable<U>(), d(o.d), k(o.k), x(o.x), raw(o.raw), act(o.act), rev(o.rev), parity(o.parity), setups(o.setups) { live++; }
        ~Temp() { live--; }
        U generate() { const Spec<U>& s = d->c[k]; x = s.step(x); return d->place(d->temper(s.out(x), act), rev); }
        U generate(int v) { return U(generate() & topmask<U>(v)); }
        void seed(U v) { x = (uint64_t(v) & 1) ? d->seedstate : 0; }
        int bitSize() const { return d->size; }
        void setUpParam(MTToolBox::ParameterGenerator& g) { k = int(g.getUint32()); setups++; for (auto& r : raw) r = 0; act = raw; }
        const std::string getHeaderString() { return "k"; }
        const std::string getParamString() { std::string r = "k=" + std::to_string(k); for (auto p : raw) r += "," + std::to_string(uint64_t(p)); return r; }
        Temp *clone() const { return new Temp(*this); }
        void add(MTToolBox::EquidistributionCalculatable<U>& o) { x ^= dynamic_cast<Temp&>(o).x; }
        void setZero() { x = 0; }
        bool isZero() const { return x == 0; }
        void setOneBit(int b) { x = uint64_t(1) << b; }
        U getParityValue() const { return U(x); }
        void setParityValue(U p) { parity = p; }
        int getMexp() const { return d->mexp; }
        void setTemperingPattern(U mask, U pattern, int i) { raw[i] = U((raw[i] & ~mask) | (pattern & mask)); }
        void setUpTempering() { act = raw; }
        void setReverseOutput() { rev = true; }
        void resetReverseOutput() { rev = false; }
        bool isReverseOutput() { return rev; }
    };
    template<class U> long Temp<U>::live = 0;
    // F[t]/m; bit b (from the bottom) of the raw word is the top coefficient of t^(sp*b) * x
    template<class U> Spec<U> spread(uint64_t m, int B, int sp, uint64_t fold = ~0ull) {
        std::vector<uint64_t> d;
        uint64_t p = 1;
        for (int b = 0; b < B; b++) {
            d.push_back(fold >> (b % 64) & 1 ? p : 0);
            for (int i = 0; i < sp; i++) p = orc::mod64(p << 1, m);
        }
        return machine<U>(m, d, false, true);
    }
}
#endif
