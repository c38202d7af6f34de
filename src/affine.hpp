// The dSFMT recurrence as an affine map: n pairs of 64-bit words and the lung.
#ifndef AFFINE_HPP
#define AFFINE_HPP
#include "samples.hpp"
#include <NTL/GF2XFactoring.h>
namespace smp {
struct Model {
    int n, pos, sl; uint64_t msk[2];
    Model(const smp::Conf& c) : n(smp::nwords(c) / 2 - 1), pos(int(c.p[1])), sl(int(c.p[2])) { msk[0] = c.p[3]; msk[1] = c.p[4]; }
    Row zero() const { return Row(2 * n + 2, 0); }
    Row step(const Row& s) const {                              // oldest pair first, the lung last
        Row r(s.begin() + 2, s.begin() + 2 * n); uint64_t M[2], nw[2];
        for (int h = 0; h < 2; h++) { uint64_t l = s[2 * n + 1 - h]; M[h] = (s[h] << sl) ^ (l >> 32 | l << 32) ^ s[2 * pos + h]; }
        for (int h = 0; h < 2; h++) nw[h] = (M[h] >> 12) ^ (M[h] & msk[h]) ^ s[h];
        r.push_back(nw[0]); r.push_back(nw[1]); r.push_back(M[0]); r.push_back(M[1]);
        return r;
    }
    Row apply(const NTL::GF2X& p, Row s) const {
        Row r = zero();
        for (long i = 0; i <= deg(p); i++) { if (IsOne(coeff(p, i))) smp::xorto(r, s); s = step(s); }
        return r;
    }
    Row constant() const {                                      // what the fixed high bits contribute in one step
        Row p = zero(); for (int i = 0; i < 2 * n; i++) p[i] = 0x3ff0000000000000ull;
        Row r = step(p); smp::xorto(r, p); return r;
    }
    // the minimal polynomial of the whole transition
    NTL::GF2X minimal() const {
        int N = 104 * n + 128; NTL::GF2X l; SetCoeff(l, 0);
        for (int tries = 0; tries < N + 6; tries++) {
            Row s = zero();
            if (tries < 6) { for (int i = 0; i < 2 * n; i++) s[i] = smp::mixk(100 * tries + i) & 0xfffffffffffffull; s[2 * n] = smp::mixk(tries + 50); s[2 * n + 1] = smp::mixk(tries + 70); }
            else { int b = tries - 6; if (b < 104 * n) s[b / 52] = 1ull << (b % 52); else s[2 * n + (b - 104 * n) / 64] = 1ull << ((b - 104 * n) % 64); }
            s = apply(l, s);
            while (!smp::zero(s)) {                             // the part not killed yet
                int p = smp::lowbit(s); NTL::Vec<NTL::GF2> v; v.SetLength(2 * N); Row w = s;
                for (int i = 0; i < 2 * N; i++) { v[i] = long(w[p >> 6] >> (p & 63) & 1); w = step(w); }
                NTL::GF2X m; MinPolySeq(m, v, N); l *= m; s = apply(m, s);
            }
        }
        return l;
    }
};
}
#endif
