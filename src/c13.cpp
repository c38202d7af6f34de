// C13: the Mersenne Twister parameter generators against the reference streams, over all operation histories.
#include "mc.hpp"
#include <random>
#include <memory>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

// The reference: std::mt19937 is the published recurrence and tempering; its state is set through the textual form.
// (init_genrand, init_by_array) of mt19937ar.c and mt19937-64.c, written from their definition.
template<class W, int N, W F, int SH, W A1, W A2> struct Init {
    static vector<W> genrand(W s) { vector<W> m(N); m[0] = s; for (int i = 1; i < N; i++) m[i] = W(F * (m[i - 1] ^ (m[i - 1] >> SH)) + W(i)); return m; }
    static vector<W> array(const vector<W>& key) {
        vector<W> m = genrand(W(19650218));
        int i = 1, j = 0, len = int(key.size());
        for (int k = N > len ? N : len; k; k--) {
            m[i] = W((m[i] ^ ((m[i - 1] ^ (m[i - 1] >> SH)) * A1)) + key[j] + W(j));
            if (++i >= N) { m[0] = m[N - 1]; i = 1; }
            if (++j >= len) j = 0;
        }
        for (int k = N - 1; k; k--) {
            m[i] = W((m[i] ^ ((m[i - 1] ^ (m[i - 1] >> SH)) * A2)) - W(i));
            if (++i >= N) { m[0] = m[N - 1]; i = 1; }
        }
        m[0] = W(1) << (sizeof(W) * 8 - 1);
        return m;
    }
};
typedef Init<uint32_t, 624, 1812433253u, 30, 1664525u, 1566083941u> I32;
typedef Init<uint64_t, 312, 6364136223846793005ull, 62, 3935559000370003845ull, 2862933555777941757ull> I64;

template<class E, class W> struct RefStream {
    vector<W> init; vector<W> out; 
    // std engines print their state as words starting from the next to be used; a freshly seeded engine prints n words, then (libstdc++) the position
    void set(const vector<W>& m) {
        std::stringstream ss;
        for (auto w : m) ss << w << ' ';
        ss << m.size();
        ss >> e;
    }
    E e;
};
struct R32 : RefStream<std::mt19937, uint32_t> {
    void seed(uint64_t v) { set(I32::genrand(uint32_t(v))); }
    void arr(const vector<uint32_t>& k) { set(I32::array(k)); }
    uint64_t get(bool wide) { uint64_t a = e(); return wide ? a << 32 | uint64_t(e()) : a; }
};
struct R64 : RefStream<std::mt19937_64, uint64_t> {
    void seed(uint64_t v) { set(I64::genrand(v)); }
    void arr(const vector<uint64_t>& k) { set(I64::array(k)); }
    uint64_t get(bool wide) { uint64_t a = e(); return wide ? a : a >> 32; }
};
template<class W> static vector<W> content(int len, int kind) {
    vector<W> v;
    for (int i = 0; i < len; i++) v.push_back(kind == 0 ? W(i * 0x9E3779B97F4A7C15ull + 0x0123456789abcdefull * (i + 1)) : kind == 1 ? W(0) : W(~W(0)));
    return v;
}
static string text(int len, int kind) { string s; for (int i = 0; i < len; i++) s += char(kind ? 33 + (i * 7 + kind) % 90 : 'a'); return s; }
template<class M, class R, class W> struct Both {
    std::unique_ptr<M> own; R r;
    uint64_t drawn; bool bad;
    Both() : own(new M()), drawn(0), bad(false) {}
    void draw(bool wide, int n, const string& at) {
        for (int i = 0; i < n && !bad; i++) {
            uint64_t want = r.get(wide), got = wide ? own->getUint64() : own->getUint32();
            drawn++;
            if (want != got) { mc::fail(sizeof(W) == 4 ? "stream32" : "stream64", at + ", draw " + to_string(i) + (wide ? " (64 bits)" : " (32 bits)") + ": expected " + mc::hex(want) + " got " + mc::hex(got)); bad = true; }
        }
    }
};
template<class M, class R, class W> static void histories(const char *tag, int depth, int n) {
    const int OPS = 12;
    uint64_t total = 1;
    for (int i = 0; i < depth; i++) total *= OPS;
    for (uint64_t c = 0; c < total; c++) {
        if (!mc::begin(tag, depth, c)) continue;
        Both<M, R, W> b;
        string h;
        uint64_t z = c;
        b.own->seed(uint64_t(5489)); b.r.seed(5489);
        bool drew = false;
        for (int i = 0; i < depth && !b.bad; i++, z /= OPS) {
            int op = int(z % OPS);
            h += " op" + to_string(op);
            mc::trans();
            vector<W> k;
            switch (op) {
            case 0: b.own->seed(uint64_t(1)); b.r.seed(1); break;
            case 1: b.own->seed(UINT64_C(0xfedcba9876543210)); b.r.seed(UINT64_C(0xfedcba9876543210)); break;
            case 2: k = content<W>(3, 0); b.own->seed(&k[0], 3); b.r.arr(k); break;
            case 3: k = content<W>(n + 5, 0); b.own->seed(&k[0], n + 5); b.r.arr(k); break;
            case 4: { string s = text(5, 3); b.own->seed(s); vector<W> kk(s.begin(), s.end()); b.r.arr(kk); break; }
            case 5: b.draw(false, 1, h); drew = true; break;
            case 6: b.draw(true, 1, h); drew = true; break;
            case 7: b.draw(false, n - 1, h); drew = true; break;
            case 8: b.draw(true, n / 2 + 3, h); drew = true; break;
            case 9: b.draw(false, n == 624 ? 1025 : 2 * n + 1, h); drew = true; break;
            // a copy goes on in place of its original, which is used and destroyed
            case 10: { std::unique_ptr<M> c(new M(*b.own)); for (int j = 0; j < n / 3; j++) b.own->getUint32(); b.own->seed(uint64_t(3)); b.own = std::move(c); break; }
            // so does an object that held another stream and is assigned to
            case 11: { std::unique_ptr<M> c(new M(uint64_t(77))); for (int j = 0; j < 2 * n + i; j++) c->getUint32(); *c = *b.own; for (int j = 0; j < 7; j++) b.own->getUint64(); b.own = std::move(c); break; }
            }
        }
        b.draw(true, 2, h + " then"); b.draw(false, 2, h + " then");
        mc::state(); mc::trace(b.drawn);
        if (drew) mc::nontrivial();
    }
}
template<class M, class R, class W> static void seeds(const char *tag, int n) {
    int cyc = mc::g.thorough ? 20 : 5;
    // every one-bit seed, its complement, and small integers
    for (int b = -3; b < 64; b++) for (int neg = 0; neg < 2; neg++) {
        if (!mc::begin(tag, 0, b, neg)) continue;
        uint64_t s = b < 0 ? uint64_t(b + 3) : UINT64_C(1) << b;
        if (neg) s = ~s;
        Both<M, R, W> x;
        x.own->seed(s); x.r.seed(s);
        x.draw(b & 1, cyc * 1024, "seed " + mc::hex(s));
        mc::state(); mc::trace(x.drawn); mc::nontrivial();
        M y(s & (sizeof(W) == 4 ? 0xffffffffu : ~0ull));       // the constructor does the same
        R r; r.seed(s);
        if (y.getUint64() != r.get(true)) mc::fail("constructor", "constructor with seed " + mc::hex(s));
    }
    // every array length around the state size, every content kind
    int top = mc::g.thorough ? 2 * n + 70 : n + 70;
    for (int len = 1; len < top; len++) for (int kind = 0; kind < 3; kind++) {
        if (kind && len % 13 && len != n && len != n - 1) continue;
        if (!mc::begin(tag, 1, len, kind)) continue;
        vector<W> k = content<W>(len, kind), keep = k;
        Both<M, R, W> x;
        if (len & 1) x.draw(false, 0, "");
        x.own->seed(&k[0], len); x.r.arr(k);
        x.draw(len & 1, n + 8, "array of length " + to_string(len));
        if (k != keep) mc::fail("array-changed", "the seed array was written to");
        mc::state(); mc::trace(x.drawn); mc::nontrivial();
        M y(&k[0], len);
        R r; r.arr(k);
        if (y.getUint64() != r.get(true)) mc::fail("constructor", "constructor with an array of length " + to_string(len));
    }
    // strings
    for (int len = 1; len < (mc::g.thorough ? 2 * n : 64); len++) for (int kind = 0; kind < 3; kind++) {
        if (!mc::begin(tag, 2, len, kind)) continue;
        string s = text(len, kind);
        vector<W> k(s.begin(), s.end());
        Both<M, R, W> x;
        x.own->seed(s); x.r.arr(k);
        x.draw(kind & 1, 2 * n, "string of length " + to_string(len));
        mc::state(); mc::trace(x.drawn); mc::nontrivial();
        M y(s);
        R r; r.arr(k);
        if (y.getUint32() != r.get(false)) mc::fail("constructor", "constructor with a string of length " + to_string(len));
    }
    // all strings of two characters, NUL among them
    for (int ch = 0; ch < 128; ch++) {
        if (!mc::begin(tag, 3, ch)) continue;
        for (int c2 = -1; c2 < 128; c2++) {
            string s(1, char(ch)); if (c2 >= 0) s += char(c2);
            vector<W> k(s.begin(), s.end());
            Both<M, R, W> x;
            x.own->seed(s); x.r.arr(k);
            x.draw(true, 3, "string of the characters " + to_string(ch) + " " + to_string(c2));
            mc::state(); mc::trace(x.drawn); mc::nontrivial();
        }
    }
    // one unusual character at every place
    for (int len = 1; len < (mc::g.thorough ? 90 : 34); len++) {
        if (!mc::begin(tag, 5, len)) continue;
        for (int at = 0; at < len; at++) for (int ch : {0, 1, 9, 10, 13, 32, 37, 92, 127}) {
            string s = text(len, 2); s[at] = char(ch);
            vector<W> k(s.begin(), s.end());
            Both<M, R, W> x;
            x.own->seed(s); x.r.arr(k);
            x.draw(false, 3, "string of length " + to_string(len) + " with character " + to_string(ch) + " at " + to_string(at));
            M y(s); R r; r.arr(k);
            if (y.getUint64() != r.get(true)) mc::fail("constructor", "constructor with a string of length " + to_string(len) + " with character " + to_string(ch) + " at " + to_string(at));
            mc::state(); mc::trace(x.drawn); mc::nontrivial();
        }
    }
    // long runs: hundreds of buffer cycles
    if (mc::begin(tag, 4)) {
        Both<M, R, W> x;
        x.own->seed(uint64_t(42)); x.r.seed(42);
        x.draw(false, mc::g.thorough ? 20000000 : 1000000, "long run");
        mc::state(); mc::trace(x.drawn); mc::nontrivial();
        mc::sample("1000000 draws from seed 42 agree with the reference");
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    // the reference itself against the published check values
    if (mc::begin("reference")) {
        R32 a; a.arr({ 0x123, 0x234, 0x345, 0x456 });
        R64 b; b.arr({ 0x12345, 0x23456, 0x34567, 0x45678 });
        std::mt19937 d; R32 c; c.seed(5489); std::mt19937_64 f; R64 g; g.seed(5489);
        mc::eq("oracle", uint64_t(1067595299u), a.get(false), "init_by_array reference");
        mc::eq("oracle", UINT64_C(7266447313870364031), b.get(true), "init_by_array64 reference");
        mc::eq("oracle", uint64_t(d()), c.get(false), "reference"); mc::eq("oracle", uint64_t(f()), g.get(true), "reference64");
        MersenneTwister def; R32 rd; rd.seed(5489);
        mc::eq("default", rd.get(true), def.getUint64(), "default seeding");
    }
    histories<MersenneTwister, R32, uint32_t>("history32", T ? 5 : 4, 624);
    histories<MersenneTwister64, R64, uint64_t>("history64", T ? 5 : 4, 312);
    seeds<MersenneTwister, R32, uint32_t>("seed32", 624);
    seeds<MersenneTwister64, R64, uint64_t>("seed64", 312);
}
