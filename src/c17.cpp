// C17: the shipped generator classes against the published recurrences.
#if defined(GEN_X128)
#include "mc.hpp"
#include "oracle.hpp"
#include "xorshift128.h"
#define main sample_main1
#include "xorshift-1.cpp"
#undef main
using std::string; using std::to_string; using std::vector;
static uint32_t step128(uint32_t *s) { uint32_t t = s[0] ^ s[0] << 11; t ^= t >> 7; s[0] = s[1]; s[1] = s[2]; s[2] = s[3]; return s[3] = s[3] ^ s[3] << 20 ^ t; }
static bool follow(uint32_t x, uint32_t y, uint32_t z, uint32_t w) {
    xorshift128_t o = {x, y, z, w}; uint32_t s[4] = {x, y, z, w};
    for (int i = 0; i < 12; i++) {
        uint32_t a = step128(s), b = xorshift128_generate(&o);
        if (a != b) { mc::fail("generate", "state " + mc::hex(x) + "," + mc::hex(y) + "," + mc::hex(z) + "," + mc::hex(w) + ": output " + to_string(i) + " is " + mc::hex(b) + ", expected " + mc::hex(a)); return false; }
    }
    mc::state(); mc::trans(12);
    return true;
}
static bool same(const xorshift128_t& a, const xorshift128_t& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
static xorshift128_t junk(int k) { xorshift128_t o; memset(&o, k == 0 ? 0 : k == 1 ? 0xff : 0x5a, sizeof o); return o; }
// the initialisers leave a non-zero state that what was there before cannot influence
static bool init_one(uint32_t seed) {
    xorshift128_t a = junk(0), b = junk(1);
    xorshift128_init(&a, seed); xorshift128_init(&b, seed);
    if (!same(a, b)) { mc::fail("init", "seed " + mc::hex(seed) + ": the state depends on what was in it before"); return false; }
    if (!(a.x | a.y | a.z | a.w)) { mc::fail("init-zero", "seed " + mc::hex(seed) + " gives the zero state"); return false; }
    return true;
}
static bool init_array(const vector<uint32_t>& key) {
    xorshift128_t r[3];
    for (int k = 0; k < 3; k++) {
        r[k] = junk(k);
        vector<uint32_t> buf(key); buf.resize(key.size() + 8, k == 0 ? 0u : k == 1 ? ~0u : 0x12345u);      // what follows the key
        xorshift128_init_by_array(&r[k], buf.data(), int(key.size()));
        if (k && !same(r[0], r[k])) { mc::fail("init-array", "a key of " + to_string(key.size()) + " words: the state depends on something other than the key"); return false; }
        if (!(r[k].x | r[k].y | r[k].z | r[k].w)) { mc::fail("init-array-zero", "a key of " + to_string(key.size()) + " words gives the zero state"); return false; }
    }
    mc::state(); mc::trans(3);
    return true;
}
void mc_main() {
    // the stand-alone generator: every state with at most two bits set, and their complements
    for (int a = 0; a < 128; a++) {
        if (!mc::begin("bits", a)) continue;
        mc::nontrivial();
        for (int b = a; b < 128; b++) for (int n = 0; n < 2; n++) {
            uint32_t s[4] = {0, 0, 0, 0};
            s[a / 32] |= 1u << (a % 32); s[b / 32] |= 1u << (b % 32);
            if (n) for (auto& x : s) x = ~x;
            if (!follow(s[0], s[1], s[2], s[3])) return;
        }
        mc::trace();
    }
    const uint64_t total = mc::g.thorough ? uint64_t(1) << 32 : uint64_t(1) << 26, chunk = 1 << 20;
    for (uint64_t c = 0; c < total / chunk; c++) {
        if (!mc::begin("seeds", c)) continue;
        mc::nontrivial();
        for (uint64_t s = c * chunk; s < (c + 1) * chunk; s++) if (!init_one(uint32_t(s)) || !init_one(uint32_t(0u - s))) break;
        mc::state(chunk * 2); mc::trans(chunk * 2); mc::trace();
    }
    for (int len = 0; len <= 20; len++) {
        if (!mc::begin("keys", len)) continue;
        mc::nontrivial();
        for (uint32_t v : {0u, 1u, 0xffffffffu, 0x80000000u}) if (!init_array(vector<uint32_t>(len, v))) return;
        for (int b = 0; b < 32 * len; b++) { vector<uint32_t> k(len, 0); k[b / 32] = 1u << (b % 32); if (!init_array(k)) return; }
        if (len <= 3) for (int x = 0; x < (1 << (6 * len)); x++) { vector<uint32_t> k; for (int i = 0; i < len; i++) k.push_back(uint32_t(int(x >> (6 * i) & 63) - 32)); if (!init_array(k)) return; }
        mc::trace();
    }
    // xorshift-1: the words it outputs obey the recurrence of Marsaglia's xor128 with shifts 5, 14, 1
    for (int k = 0; k < 64; k++) {
        if (!mc::begin("x1", k)) continue;
        mc::nontrivial();
        for (uint32_t lo = 0; lo < 64; lo++) {
            XorShift x(1); x.seed(k < 32 ? (1u << k) ^ lo : (0x9e3779b9u * (64u * k + lo)));
            uint32_t w[400];
            for (int i = 0; i < 400; i++) w[i] = x.generate();
            for (int i = 0; i + 4 < 400; i++) {
                uint32_t t = w[i] ^ w[i] << 5;
                if (w[i + 4] != (w[i + 3] ^ w[i + 3] >> 1 ^ t ^ t >> 14)) { mc::fail("x1", "output " + to_string(i + 4) + " does not follow from the ones before"); return; }
            }
            mc::state(); mc::trans(400);
        }
        mc::trace();
    }
    if (mc::want_sample()) mc::sample("xorshift128_init(1) and a key of 3 words leave states independent of the memory they are written to");
}
#else
#include "samples.hpp"
#include <random>
using namespace smp;
using std::string; using std::to_string; using std::vector;
static string cname(const Conf& c) { return c.name + "(" + join(c.p) + ")"; }
#if !defined(GEN_MT1)
// every output window of a real object lies in the space of windows of the published recurrence
static void part_span(const vector<Conf>& cs) {
    for (int i = 0; i < int(cs.size()); i++) {
        if (!mc::begin("span", i)) continue;
        const Conf& c = cs[i];
        mc::text(cname(c)); mc::nontrivial();
        const int n = nwords(c) / WPR, K = 3 * n + 8;
        vector<Row> rows; vector<int> piv;
        auto red = [&](Row r) { for (size_t j = 0; j < rows.size(); j++) if (r[piv[j] >> 6] >> (piv[j] & 63) & 1) xorto(r, rows[j]); return r; };
        vector<int> lv = live(c);
        for (int x : lv) {
            vector<uint64_t> st(nwords(c), 0); int w = W == 32 ? 32 : 64;
            st[x / w] ^= uint64_t(1) << (x % w);
            Row r = red(refwin(c, st, K)); int p = lowbit(r);
            if (p >= 0) { rows.push_back(r); piv.push_back(p); }
            mc::heartbeat = mc::heartbeat + 1;
        }
        int rank = 0; vector<Row> seen; vector<int> sp;
        for (int k = 0; k < 2 * int(lv.size()) + 60; k++) {
            std::unique_ptr<G> g(make(c)); seedk(*g, mixk(k));
            for (int t = 0; t < k % (4 * n + 7); t++) g->generate();
            Row w; for (int t = 0; t < K; t++) putw(w, g->generate());
            mc::state(); mc::trans(K); mc::trace();
            Row r = red(w);
            if (!zero(r)) { mc::fail("recurrence", cname(c) + ": no state of the published recurrence gives the outputs " + hexw(w, 0) + ", " + hexw(w, 1) + ", " + hexw(w, 2) + ", ..."); return; }
            Row q = w; for (size_t j = 0; j < seen.size(); j++) if (q[sp[j] >> 6] >> (sp[j] & 63) & 1) xorto(q, seen[j]);
            int p = lowbit(q); if (p >= 0) { seen.push_back(q); sp.push_back(p); rank++; }
        }
        mc::outcome("dimension (model, reached)", to_string(rows.size()) + "," + to_string(rank));
        if (rank > int(rows.size())) mc::fail("dimension", "more independent outputs than the recurrence allows");
        if (mc::want_sample()) mc::sample(cname(c) + ": windows of " + to_string(K) + " outputs from " + to_string(2 * lv.size() + 60) + " states all in the " + to_string(rows.size()) + "-dimensional space of the recurrence");
    }
}
#endif
// invert a linear map on W-bit words
template<class F> struct Inv {
    int w; vector<uint64_t> inv;
    Inv(F f, int w_) : w(w_), inv(w_, 0) {
        vector<std::pair<uint64_t, uint64_t>> m;
        for (int i = 0; i < w; i++) m.push_back({uint64_t(f(uint64_t(1) << i)), uint64_t(1) << i});
        for (int b = 0; b < w; b++) {
            int p = b; while (p < w && !(m[p].first >> b & 1)) p++;
            if (p == w) { fprintf(stderr, "not invertible\n"); exit(2); }
            std::swap(m[p], m[b]);
            for (int i = 0; i < w; i++) if (i != b && (m[i].first >> b & 1)) { m[i].first ^= m[b].first; m[i].second ^= m[b].second; }
        }
        for (int b = 0; b < w; b++) inv[b] = m[b].second;
    }
    uint64_t operator()(uint64_t y) const { uint64_t r = 0; for (; y; y &= y - 1) r ^= inv[__builtin_ctzll(y)]; return r; }
};
#if defined(GEN_MT1) || defined(GEN_MT2)
static void seq(const Conf& c, int n, int r, int pos, uint32_t a) {
#if defined(GEN_MT1)
    auto T = [&](uint64_t v) { uint32_t z = uint32_t(v); z ^= z >> 11; z ^= (z << 7) & 0x9d2c5680u; z ^= (z << 15) & 0xefc60000u; return uint64_t(z ^ z >> 18); };
#else
    auto T = [&](uint64_t v) { return uint64_t(temper(c, uint32_t(v))); };
#endif
    Inv<decltype(T)> inv(T, 32);
    const uint32_t low = uint32_t((uint64_t(1) << r) - 1);
    for (int s = 0; s < 3; s++) {
        std::unique_ptr<G> g(make(c)); seedk(*g, s == 2 ? 0 : mixk(s));
        vector<uint32_t> x;
        for (int i = 0; i < 3 * n + 20; i++) x.push_back(uint32_t(inv(g->generate())));
        for (int i = 0; i + n < int(x.size()); i++) {
            uint32_t y = (x[i] & ~low) | (x[i + 1] & low), z = x[i + pos] ^ (y >> 1) ^ ((y & 1) ? a : 0);
            if (z != x[i + n]) { mc::fail("sequence", cname(c) + ": output " + to_string(i + n) + " does not follow from the " + to_string(n) + " before it"); return; }
        }
        mc::state(); mc::trans(x.size()); mc::trace();
    }
}
#endif
static void part_seq() {
#if defined(GEN_MT1)
    Conf c = confs(false)[0];
    for (int k = 0; k < 40; k++) {
        if (!mc::begin("mt19937", k)) continue;
        mc::nontrivial();
        seq(c, 624, 31, 397, 0x9908b0df);
        std::unique_ptr<G> g(make(c)); seedk(*g, 5489 + k);
        // seeded by integer, it is MT19937 of that seed from the first output
        for (uint32_t sd : { uint32_t(5489 + k), uint32_t(k), ~uint32_t(k), uint32_t(mixk(k)), 1u << (k % 32) }) {
            std::mt19937 m(sd); if (k % 2) window(*g, 3 + k); seedk(*g, sd);
            for (int i = 0; i < 1300; i++) { uint64_t a = m(), b = g->generate(); if (a != b) { mc::fail("mt19937", "seed " + to_string(sd) + ": output " + to_string(i) + " is not that of MT19937"); break; } }
        }
        if (mc::want_sample()) mc::sample("outputs of MT19937, untempered, obey the recurrence over 1892 terms");
    }
#elif defined(GEN_MT2)
    for (int mexp : {521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497}) for (int k = 0; k < 24; k++) {
        if (!mc::begin("mt", mexp, k)) continue;
        mc::nontrivial();
        int n = mexp / 32 + 1;
        int pos = k == 0 ? 2 : k == 1 ? n - 1 : int(mixk(k) % (n - 2)) + 2;
        Conf c = {"mt", {uint64_t(mexp), uint64_t(pos), uint32_t(mixk(k + 900)), k % 3 ? uint32_t(mixk(k + 800)) : 0, k % 3 ? uint32_t(mixk(k + 850)) : 0}};
        seq(c, n, n * 32 - mexp, pos, uint32_t(c.p[2]));
    }
    // tempering parameters put in place bit by bit are the ones used
    for (int m = 0; m < 2; m++) for (int b = 0; b < 32; b++) {
        if (!mc::begin("settemper", m, b)) continue;
        mc::nontrivial();
        Conf c0 = {"mt", {127, 2, 0x9908b0df, 0x9d2c5680, 0xefc60000}};
        for (int bit = 0; bit < 2; bit++) {
            Conf c = c0; c.p[3 + m] = (c.p[3 + m] & ~(1ull << b)) | uint64_t(bit) << b;
            std::unique_ptr<G> g(make(c0)), h(make(c));
            g->setTemperingPattern(1u << b, bit ? ~0u : 0u, m); g->setUpTempering();
            if (window(*g, 40) != window(*h, 40)) { mc::fail("settemper", "setting bit " + to_string(b) + " of mask " + to_string(m) + " to " + to_string(bit)); return; }
            mc::state(2); mc::trans(80); mc::trace();
        }
    }
#elif defined(GEN_MTGP)
    for (int mexp : {3217, 4423, 11213, 23209, 44497, 110503, 216091}) for (int k = 0; k < 10; k++) {
        if (!mc::begin("mtgp", mexp, k)) continue;
        mc::nontrivial();
        int n = mexp / 32 + 1, r = n * 32 - mexp;
        Conf c; c.name = "mtgp";
        int pos = 3 + int(mixk(k) % (n / 2 - 4));
        c.p = {uint64_t(mexp), uint64_t(pos), 13, 4};
        for (int i = 0; i < 4; i++) c.p.push_back(uint32_t(mixk(10 * k + i)));
        for (int i = 0; i < 4; i++) c.p.push_back(0);
        std::unique_ptr<G> g(make(c)); seedk(*g, mixk(k + 40));
        std::unique_ptr<G> h(cl(*g));
        uint32_t tmp[4];
        for (int i = 0; i < 4; i++) { tmp[i] = uint32_t(mixk(10 * k + i + 500)); h->setTemperingPattern(~0u, tmp[i], i); }
        h->setUpTempering();
        vector<uint32_t> x, y;
        for (int i = 0; i < 3 * n; i++) { x.push_back(g->generate()); y.push_back(h->generate()); }
        uint32_t mask = ~uint32_t((uint64_t(1) << r) - 1);
        for (int i = 0; i + n < 3 * n; i++) {
            uint32_t a = (x[i] & mask) ^ x[i + 1]; a ^= a << 13;
            uint32_t v = a ^ x[i + pos] >> 4; v ^= tblx(c, 4, v & 15);
            uint32_t t = x[i + pos - 1]; t ^= t >> 16; t ^= t >> 8;
            uint32_t o = x[i + n];
            for (int b = 0; b < 4; b++) if (t >> b & 1) o ^= tmp[b];
            if (v != x[i + n]) { mc::fail("sequence", cname(c) + ": word " + to_string(i + n) + " does not follow"); return; }
            if (o != y[i + n]) { mc::fail("tempering", cname(c) + ": tempered output " + to_string(i + n) + " is " + mc::hex(y[i + n]) + ", expected " + mc::hex(o)); return; }
        }
        mc::state(2); mc::trans(6 * n); mc::trace();
    }
#elif defined(GEN_TINY)
    // the state can be set: every state with one or two live bits, and their complements, exactly
    vector<Conf> cs = confs(mc::g.thorough);
    for (int i = 0; i < int(cs.size()); i++) for (int a = 0; a < 128; a++) {
        if (!mc::begin("exact", i, a)) continue;
        mc::nontrivial();
        for (int b = a; b < 128; b++) for (int n = 0; n < 2; n++) {
            vector<uint64_t> st(4, 0); st[a / 32] |= 1u << (a % 32); st[b / 32] |= 1u << (b % 32);
            if (n) for (auto& x : st) x = uint32_t(~x);
            std::unique_ptr<G> g(make(cs[i])); setstate(cs[i], *g, st);
            Row r; for (int k = 0; k < 9; k++) putw(r, g->generate());
            if (r != refwin(cs[i], st, 9)) { mc::fail("exact", cname(cs[i]) + " state bits " + to_string(a) + "," + to_string(b) + (n ? " complemented" : "") + ": " + diff(refwin(cs[i], st, 9), r)); return; }
            mc::state(); mc::trans(9);
        }
        mc::trace();
    }
    for (int b = 0; b < 32; b++) {
        if (!mc::begin("settemper", b)) continue;
        mc::nontrivial();
        for (int bit = 0; bit < 2; bit++) {
            Conf c = cs[1]; c.p[2] = (c.p[2] & ~(1ull << b)) | uint64_t(bit) << b;
            std::unique_ptr<G> g(make(cs[1])), h(make(c));
            g->setTemperingPattern(1u << b, bit ? ~0u : 0u, 0); g->setUpTempering();
            if (window(*g, 40) != window(*h, 40)) { mc::fail("settemper", "setting bit " + to_string(b) + " to " + to_string(bit)); return; }
            mc::state(2); mc::trans(80); mc::trace();
        }
    }
#elif defined(GEN_RMT)
    for (int mexp : {127, 521, 1279, 4253, 9941, 19937, 23209, 44497}) for (int k = 0; k < 12; k++) {
        if (!mc::begin("rmt", mexp, k)) continue;
        mc::nontrivial();
        int n = mexp / 64 + 1, pos = int(mixk(k) % n);
        Conf c = {"rmt", {uint64_t(mexp), uint64_t(pos), mixk(k + 900), k % 3 ? mixk(k + 700) : 0, k % 3 ? mixk(k + 750) : 0}};
        auto T = [&](uint64_t z) { z ^= (z >> 29) & 0x5555555555555555ull; z ^= (z << 17) & c.p[3]; z ^= (z << 37) & c.p[4]; return z ^ z >> 43; };
        Inv<decltype(T)> inv(T, 64);
        std::unique_ptr<G> g(make(c)); seedk(*g, mixk(k));
        vector<uint64_t> x; for (int i = 0; i < 3 * n + 10; i++) x.push_back(inv(g->generate()));
        for (int i = 0; i + n < int(x.size()); i++) {
            uint64_t y = x[i + pos]; y ^= y << 17;
            if (x[i + n] != (y ^ x[i] >> 1 ^ ((x[i] & 1) ? c.p[2] : 0))) { mc::fail("sequence", cname(c) + ": output " + to_string(i + n) + " does not follow"); return; }
        }
        mc::state(); mc::trans(x.size()); mc::trace();
    }
#elif defined(GEN_SFMT)
    const int S[][6] = {{607, 2, 15, 3, 13, 3}, {1279, 7, 14, 3, 5, 1}, {2281, 12, 19, 1, 5, 1}, {4253, 17, 20, 1, 7, 1}, {11213, 68, 14, 3, 7, 3}, {19937, 122, 18, 1, 11, 1}, {44497, 330, 5, 3, 9, 3}, {86243, 366, 6, 7, 19, 1}, {216091, 627, 11, 3, 10, 1}};
    for (int k = 0; k < 9; k++) for (int v = 0; v < 8; v++) {
        if (!mc::begin("sfmt", k, v)) continue;
        mc::nontrivial();
        Conf c; c.name = "sfmt"; int n = S[k][0] / 128 + 1;
        c.p = {uint64_t(S[k][0]), uint64_t(v ? 1 + mixk(v) % (n - 2) : S[k][1]), uint64_t(v ? 1 + mixk(v + 9) % 31 : S[k][2]), uint64_t(v ? 2 * (v % 4) + 1 : S[k][3]), uint64_t(v ? 1 + mixk(v + 19) % 31 : S[k][4]), uint64_t(v ? 2 * (v / 2 % 4) + 1 : S[k][5])};
        for (int i = 0; i < 4; i++) c.p.push_back(uint32_t(mixk(30 * v + i)) | uint32_t(mixk(30 * v + i + 4)));
        std::unique_ptr<G> g(make(c)); seedk(*g, mixk(v));
        Row w; for (int i = 0; i < 3 * n; i++) putw(w, g->generate());
        Row first(w.begin(), w.begin() + 2 * n), rest(w.begin() + 2 * n, w.end());
        Row want = refwin(c, first, 2 * n);
        if (want != rest) { mc::fail("sequence", cname(c) + ": " + diff(want, rest)); return; }
        mc::state(); mc::trans(3 * n); mc::trace();
    }
#elif defined(GEN_DSFMT)
    // the lung is the check word; a whole cycle of outputs and the lung after it determine the rest
    for (int mexp : {521, 1279, 2203, 4253, 11213, 19937, 44497, 86243, 132049, 216091}) for (int k = 0; k < 8; k++) {
        if (!mc::begin("dsfmt", mexp, k)) continue;
        mc::nontrivial();
        const uint64_t m52 = (uint64_t(1) << 52) - 1; int n = (mexp - 128) / 104 + 1;
        Conf c = {"dsfmt", {uint64_t(mexp), uint64_t(1 + mixk(k + 40) % (n - 2)), uint64_t(1 + mixk(k + 60) % 51), (mixk(800 + k) | mixk(820 + k)) & m52, (mixk(840 + k) | mixk(860 + k)) & m52}};
        std::unique_ptr<G> g(make(c)); seedk(*g, mixk(k));
        Row first; for (int i = 0; i < n; i++) putw(first, g->generate());
        MTToolBox::w128_t lung = g->getParityValue(); first.push_back(lung.u64[0]); first.push_back(lung.u64[1]);
        Row want = refwin(c, first, 2 * n + 5), rest; for (int i = 0; i < 2 * n + 5; i++) putw(rest, g->generate());
        if (want != rest) { mc::fail("sequence", cname(c) + ": " + diff(want, rest)); return; }
        mc::state(); mc::trans(3 * n); mc::trace();
    }
#elif defined(GEN_XS) && (GEN_XS == 3 || GEN_XS == 4)
    // every parameter value
    const int total = GEN_XS == 3 ? 1 << 15 : 1 << 18;
    for (int blk = 0; blk < total; blk += 512) {
        if (!mc::begin("params", blk)) continue;
        mc::nontrivial();
        for (int v = blk; v < blk + 512; v++) {
#if GEN_XS == 3
            Conf c = {"xs", {8, uint64_t(v & 31), uint64_t(v >> 5 & 31), uint64_t(v >> 10 & 31)}};
#else
            Conf c = {"xs", {uint64_t(v >> 15 & 7), uint64_t(v >> 10 & 31), uint64_t(v >> 5 & 31), uint64_t(v & 31)}};
#endif
            std::unique_ptr<G> g(make(c));
            for (int s = 0; s < 3; s++) {
                seedk(*g, mixk(s + 3 * v));
                Row w; for (int i = 0; i < 16; i++) putw(w, g->generate());
                vector<uint64_t> st(w.begin(), w.begin() + 4); Row rest(w.begin() + 4, w.end());
                if (refwin(c, st, 12) != rest) { mc::fail("params", cname(c) + ": " + diff(refwin(c, st, 12), rest)); return; }
                mc::state(); mc::trans(16);
            }
        }
        mc::trace();
    }
#endif
}
void mc_main() {
#if !defined(GEN_MT1)
    part_span(confs(true));
#endif
    part_seq();
}
#endif
