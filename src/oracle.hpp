// Reference mathematics, written from the definitions and independent of the
// code under test: GF(2) polynomials as bit masks or bit vectors, linear
// complexity, ranks, orders.
#ifndef ORACLE_HPP
#define ORACLE_HPP
#include <cstdint>
#include <vector>
#include <string>
#include <algorithm>
#include <NTL/GF2X.h>

namespace orc {
    typedef std::vector<uint8_t> Bits;             // coefficient i at index i
    inline int degb(const Bits& p) { int i = int(p.size()) - 1; while (i >= 0 && !p[i]) i--; return i; }
    inline void trim(Bits& p) { p.resize(degb(p) + 1); }
    inline Bits from_ntl(const NTL::GF2X& f) {
        Bits b(NTL::deg(f) + 1);
        for (long i = 0; i <= NTL::deg(f); i++) b[i] = NTL::IsOne(NTL::coeff(f, i));
        return b;
    }
    inline NTL::GF2X to_ntl(const Bits& b) {
        NTL::GF2X f;
        for (size_t i = 0; i < b.size(); i++) if (b[i]) NTL::SetCoeff(f, long(i), 1);
        return f;
    }
    inline Bits from_u64(uint64_t m) { Bits b; for (; m; m >>= 1) b.push_back(m & 1); return b; }
    inline uint64_t to_u64(const Bits& b) { uint64_t m = 0; for (size_t i = 0; i < b.size(); i++) if (b[i]) m |= uint64_t(1) << i; return m; }
    inline NTL::GF2X to_ntl(uint64_t m) { NTL::GF2X f; for (int i = 0; m; i++, m >>= 1) if (m & 1) NTL::SetCoeff(f, i, 1); return f; }
    inline uint64_t ntl_u64(const NTL::GF2X& f) {
        uint64_t m = 0;
        if (NTL::deg(f) > 63) return ~uint64_t(0);
        for (long i = 0; i <= NTL::deg(f); i++) if (NTL::IsOne(NTL::coeff(f, i))) m |= uint64_t(1) << i;
        return m;
    }
    inline std::string str(const Bits& b) {
        int d = degb(b);
        if (d < 0) return "0";
        std::string s;
        for (int i = d; i >= 0; i--) s += char('0' + b[i]);
        return s.size() > 200 ? s.substr(0, 200) + "..." : s;
    }
    inline std::string str(const NTL::GF2X& f) { return str(from_ntl(f)); }
    inline std::string str64(uint64_t m) { return str(from_u64(m)); }

    // ---- polynomials of degree < 64 as masks
    inline int deg64(uint64_t a) { return a ? 63 - __builtin_clzll(a) : -1; }
    inline uint64_t mod64(uint64_t a, uint64_t m) {
        int dm = deg64(m);
        for (int d = deg64(a); d >= dm; d = deg64(a)) a ^= m << (d - dm);
        return a;
    }
    inline uint64_t div64(uint64_t a, uint64_t m) {
        int dm = deg64(m); uint64_t q = 0;
        for (int d = deg64(a); d >= dm; d = deg64(a)) { a ^= m << (d - dm); q |= uint64_t(1) << (d - dm); }
        return q;
    }
    inline uint64_t mul64(uint64_t a, uint64_t b) { uint64_t r = 0; for (; b; b &= b - 1) r ^= a << __builtin_ctzll(b); return r; }
    inline uint64_t gcd64(uint64_t a, uint64_t b) { while (b) { uint64_t t = mod64(a, b); a = b; b = t; } return a; }
    inline uint64_t mulmod64(uint64_t a, uint64_t b, uint64_t m) {   // deg m <= 63, a,b reduced
        uint64_t r = 0; int dm = deg64(m); uint64_t top = uint64_t(1) << (dm - 1);
        for (int i = dm - 1; i >= 0; i--) {
            bool c = r & top; r = (r << 1);
            if (c) r ^= m;
            if (b >> i & 1) r ^= a;
        }
        return r;
    }
    // least factor of every polynomial below 2^n, by sieving
    inline std::vector<uint32_t> sieve(int n) {
        std::vector<uint32_t> lf(size_t(1) << n, 0);
        for (uint32_t p = 2; p < lf.size(); p++) {
            if (lf[p]) continue;
            int dp = deg64(p);
            for (uint32_t q = 1; dp + deg64(q) < n; q++) {
                uint64_t r = mul64(p, q);
                if (!lf[r]) lf[r] = p;
            }
        }
        return lf;
    }
    // multiplicative order of x modulo m (m(0)=1), by stepping
    inline uint64_t order_x(uint64_t m) {
        if (deg64(m) == 0) return 1;
        uint64_t one = mod64(1, m), r = mod64(2, m), k = 1;
        uint64_t top = uint64_t(1) << deg64(m);
        while (r != one) { r <<= 1; if (r & top) r ^= m; k++; }
        return k;
    }
    // ---- linear complexity: the least monic h with sum h_i s_{i+j} = 0 for all j
    inline Bits minpoly_seq(const std::vector<uint8_t>& s) {
        int n = int(s.size()), L = 0, m = 1;
        Bits C(n + 2, 0), B(n + 2, 0), T;
        C[0] = B[0] = 1;
        for (int i = 0; i < n; i++) {
            int d = s[i];
            for (int j = 1; j <= L; j++) d ^= C[j] & s[i - j];
            if (!d) { m++; continue; }
            if (2 * L <= i) {
                T = C;
                for (int j = 0; j + m <= n; j++) C[j + m] ^= B[j];
                L = i + 1 - L; B = T; m = 1;
            } else {
                for (int j = 0; j + m <= n; j++) C[j + m] ^= B[j];
                m++;
            }
        }
        Bits h(L + 1);
        for (int i = 0; i <= L; i++) h[L - i] = C[i];
        return h;
    }
    // definition, by exhausting the candidates in degree order (small cases only)
    inline uint64_t minpoly_brute(const std::vector<uint8_t>& s, int maxdeg) {
        for (int d = 0; d <= maxdeg; d++)
            for (uint64_t h = uint64_t(1) << d; h < (uint64_t(2) << d); h++) {
                bool good = true;
                for (size_t j = 0; good && j + d < s.size(); j++) {
                    int v = 0;
                    for (int i = 0; i <= d; i++) if (h >> i & 1) v ^= s[j + i];
                    good = !v;
                }
                if (good) return h;
            }
        return 0;
    }
    // rank of bit rows held in 64-bit words
    inline int rank64(std::vector<uint64_t> r) {
        int rk = 0;
        for (int b = 63; b >= 0; b--) {
            size_t p = rk;
            while (p < r.size() && !(r[p] >> b & 1)) p++;
            if (p == r.size()) continue;
            std::swap(r[p], r[rk]);
            for (size_t i = 0; i < r.size(); i++) if (i != size_t(rk) && (r[i] >> b & 1)) r[i] ^= r[rk];
            if (++rk == int(r.size())) break;
        }
        return rk;
    }
    // incremental echelon basis over long bit rows
    struct Echelon {
        std::vector<std::vector<uint64_t> > rows; std::vector<int> piv;
        // true when v enlarges the span
        bool add(std::vector<uint64_t> v) {
            for (size_t i = 0; i < rows.size(); i++)
                if (v[piv[i] >> 6] >> (piv[i] & 63) & 1) for (size_t w = 0; w < v.size(); w++) v[w] ^= rows[i][w];
            for (size_t w = 0; w < v.size(); w++) if (v[w]) {
                piv.push_back(int(w * 64 + __builtin_ctzll(v[w])));
                rows.push_back(v);
                return true;
            }
            return false;
        }
        int rank() const { return int(rows.size()); }
    };
    inline bool prime_u64(uint64_t n) {
        if (n < 2) return false;
        for (uint64_t p = 2; p * p <= n; p++) if (n % p == 0) return false;
        return true;
    }
    inline std::vector<uint64_t> prime_factors(uint64_t n) {
        std::vector<uint64_t> f;
        for (uint64_t p = 2; p * p <= n; p++) if (n % p == 0) { f.push_back(p); while (n % p == 0) n /= p; }
        if (n > 1) f.push_back(n);
        return f;
    }
}
#endif
