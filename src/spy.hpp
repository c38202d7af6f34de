// A tempering "searcher" that installs given patterns, so that every tempering outcome can be enumerated.
#ifndef SPY_HPP
#define SPY_HPP
#include <MTToolBox/AlgorithmTempering.hpp>
#include <vector>
namespace gen {
    template<class U> struct Spy : public MTToolBox::AlgorithmTempering<U> {
        std::vector<U> pat, mask; bool lsb; int calls; int *clock; int at;
        bool revseen, stirs;
        Spy(const std::vector<U>& p, const std::vector<U>& m, bool l, int *c) : pat(p), mask(m), lsb(l), calls(0), clock(c), at(-1), revseen(false), stirs(false) {}
        int operator()(MTToolBox::TemperingCalculatable<U>& g, bool) {
            calls++; at = (*clock)++;
            revseen = revseen || g.isReverseOutput();
            if (stirs) { g.setReverseOutput(); g.resetReverseOutput(); }
            for (size_t i = 0; i < pat.size(); i++) g.setTemperingPattern(mask[i], pat[i], int(i));
            g.setUpTempering();
            return 0;
        }
        bool isLSBTempering() const { return lsb; }
    };
}
#endif
