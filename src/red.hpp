// A reducible generator over an explicit machine.
#ifndef RED_HPP
#define RED_HPP
#include "gens.hpp"
#include <MTToolBox/ReducibleGenerator.hpp>
namespace gen {
    template<class U> class Red : public MTToolBox::ReducibleGenerator<U> {
    public:
        const Spec<U>* s; uint64_t x; int mexp; U parity;
        static long live;
        Red(const Spec<U>& sp, uint64_t x0, int m = 0) : s(&sp), x(x0), mexp(m), parity(0) { live++; }
        Red(const Red& o) : MTToolBox::ReducibleGenerator<U>(), s(o.s), x(o.x), mexp(o.mexp), parity(o.parity) { live++; }
        ~Red() { live--; }
        U generate() {
            if (s->before) { U r = s->out(x); x = s->step(x); return r; }
            x = s->step(x); return s->out(x);
        }
        U generate(int v) { return U(generate() & topmask<U>(v)); }
        void seed(U v) { x = uint64_t(v); }
        int bitSize() const { return s->declared; }
        void setUpParam(MTToolBox::ParameterGenerator&) {}
        const std::string getHeaderString() { return "red"; }
        const std::string getParamString() { return "red"; }
        Red *clone() const { return new Red(*this); }
        void add(MTToolBox::EquidistributionCalculatable<U>& o) { x ^= dynamic_cast<Red&>(o).x; }
        void setZero() { x = 0; }
        bool isZero() const { return x == 0; }
        void setOneBit(int b) { x = uint64_t(1) << b; }
        U getParityValue() const { return U(x); }
        void setParityValue(U p) { parity = p; }
        int getMexp() const { return mexp; }
    };
    template<class U> long Red<U>::live = 0;
}
#endif
