// C16: the shipped generator classes as GF(2)-linear generator objects.
// The oracle is superposition itself: every real object is a sum of freshly seeded
// ones, so its whole future is the XOR of their futures.
#include "samples.hpp"
using namespace smp;
using std::string; using std::to_string; using std::vector;

static string cname(const Conf& c) { return c.name + "(" + join(c.p) + ")"; }
static std::unique_ptr<Basis> cached; static int cachedi = -1;
static const Basis& basis(const vector<Conf>& cs, int i) {
    if (cachedi != i) {
        cached.reset(new Basis(cs[i], winlen(cs[i])));
        cached->fill(int(live(cs[i]).size()));
        cachedi = i;
        mc::heartbeat = mc::heartbeat + 1;
    }
    return *cached;
}
static string bad;      // why the last check failed
// the real object must go on exactly as w says; z: whether it must be reported zero (-1: no claim)
static bool agrees(const char *key, const G& g, const Row& w, int z, const string& what) {
    Row r = window(g, int(w.size() / WPR));
    mc::trans(r.size());
    if (r != w) { mc::fail(key, what + ": " + diff(w, r)); return false; }
    if (z >= 0 && g.isZero() != bool(z)) {
        mc::fail(string(key) + "-zero", what + ": isZero() is " + (g.isZero() ? "true" : "false") + " although its outputs are " + (z ? "all zero" : "not all zero"));
        return false;
    }
    return true;
}
static uint64_t revw(uint64_t x, int w) { uint64_t r = 0; for (int i = 0; i < w; i++) if (x >> i & 1) r |= uint64_t(1) << (w - 1 - i); return r; }
// top v bits of one output (its words low half first), reversed first if rev
static Row topbits(const uint64_t *o, int v, bool rv) {
    Row r(o, o + WPR);
    if (rv) {
        if (WPR == 1) r[0] = revw(o[0], W);
        else { r[0] = revw(o[1], 64); r[1] = revw(o[0], 64); }
    }
    if (WPR == 1) r[0] = v >= W ? r[0] : (r[0] >> (W - v)) << (W - v);
    else for (int h = 0; h < 2; h++) { int keep = h ? std::min(v, 64) : std::max(v - 64, 0); r[h] = keep >= 64 ? r[h] : keep == 0 ? 0 : (r[h] >> (64 - keep)) << (64 - keep); }
    return r;
}

#if !defined(GEN_MT1)
// ---- A: a spanning set; everything that cancels must be zero, at every position
static void part_basis(const vector<Conf>& cs) {
    for (int i = 0; i < int(cs.size()); i++) {
        if (!mc::begin("basis", i)) continue;
        mc::text(cname(cs[i]));
        const Basis& b = basis(cs, i);
        const int bits = int(live(cs[i]).size());
        std::unique_ptr<G> g(make(cs[i]));
        bool full = b.rank() == g->bitSize();
        mc::state(b.rank() + b.kernel.size());
        mc::count(full ? "observable configurations" : "partly observable configurations");
        if (b.rank() > g->bitSize()) { mc::fail("bitsize", "outputs span " + to_string(b.rank()) + " dimensions but bitSize() is " + to_string(g->bitSize())); continue; }
        if (full) mc::nontrivial();
        const int n = nwords(cs[i]) / WPR;
        for (size_t k = 0; k < b.objs.size(); k++) if (!agrees("basis", *b.objs[k], b.rows[k], full ? 0 : -1, "sum of objects " + to_string(k))) return;
        Row z(b.K * WPR, 0);
        for (size_t k = 0; k < b.kernel.size(); k++) {
            G& q = *b.kernel[k];
            for (int s = 0; s <= 2 * n + 1; s++) {
                if (!agrees("cancelled", q, z, full ? 1 : -1, "cancelled sum " + to_string(k) + " after " + to_string(s) + " steps")) return;
                q.generate(); mc::trace();
            }
        }
        cachedi = -1;      // the kernel objects have moved
        // zeroing at any point, then going on, stays zero; an object added to itself vanishes
        for (int s = 0; s <= 2 * n + 1; s++) for (int how = 0; how < 3; how++) {
            std::unique_ptr<G> x(make(cs[i])); seedk(*x, mixk(s));
            for (int k = 0; k < s; k++) x->generate();
            if (how == 0) x->setZero();
            else if (how == 1) { std::unique_ptr<G> y(cl(*x)); x->add(*y); }
            else x->add(*x);
            for (int k = 0; k <= n; k++) {
                if (!agrees("zeroed", *x, z, 1, string(how ? "x+x" : "setZero") + " after " + to_string(s) + "+" + to_string(k) + " steps")) return;
                x->generate(); mc::trace();
            }
        }
#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
        // the one-bit states the parity search starts from are a basis of the states
        if (full) {
            Basis u(cs[i], b.K);
            for (int k = 0; k < g->bitSize(); k++) {
                G *x = make(cs[i]);
                for (int t = 0; t < k % 5; t++) x->generate();
                onebit(*x, k);
                if (!u.insert(x)) { mc::fail("onebit", "setOneBit(" + to_string(k) + ") gives a state dependent on those of smaller positions"); return; }
            }
        }
        // the check word: what is set is read back, only that word changes, at every position
        for (int s = 0; s <= 2 * n + 1; s++) for (int k = 0; k < 12; k++) {
            std::unique_ptr<G> x(make(cs[i])); seedk(*x, mixk(s));
            for (int t = 0; t < s; t++) x->generate();
            U old = x->getParityValue(), v;
            Row w = window(*x, b.K), ro, rv; putw(ro, old);
            Row f[3];
            for (int j = 0; j < 3; j++) {         // v, u, v^u^old: the futures are superposed
                uint64_t a = mixk(100 * k + 1), a2 = mixk(100 * k + 2), c0 = mixk(100 * k + 3), c2 = mixk(100 * k + 4);
                uint64_t lo = j == 0 ? a : j == 1 ? c0 : a ^ c0 ^ ro[0], hi = j == 0 ? a2 : j == 1 ? c2 : a2 ^ c2 ^ (WPR > 1 ? ro[WPR - 1] : 0);
#if defined(GEN_RMT)
                v = lo; (void)hi;
#else
                v.u64[0] = lo; v.u64[1] = hi;
#endif
                x->setParityValue(v);
                Row g1, g2; putw(g1, v); putw(g2, x->getParityValue());
                if (g1 != g2) { mc::fail("parity", "the check word set is not the one read back"); return; }
                f[j] = window(*x, b.K);
            }
            Row t = f[0]; xorto(t, f[1]); xorto(t, f[2]);
            if (t != w) { mc::fail("parity-linear", "after " + to_string(s) + " steps: replacing the check word is not linear: " + diff(w, t)); return; }
            x->setParityValue(old);
            if (!agrees("parity-back", *x, w, -1, "after " + to_string(s) + " steps: check word set back")) return;
        }
#endif
        (void)bits;
        if (mc::want_sample()) mc::sample(cname(cs[i]) + ": rank " + to_string(b.rank()) + " of bitSize " + to_string(g->bitSize()) + ", " + to_string(b.kernel.size()) + " cancelled sums reported zero at every position");
    }
}
// ---- B: sparse states, where a wrong zero test would show, at every position of the cycle
static void part_sparse(const vector<Conf>& cs) {
    for (int i = 0; i < int(cs.size()); i++) {
        const Conf& c = cs[i];
        vector<int> lv = live(c);
        const int n = nwords(c) / WPR, K = winlen(c), bits = int(lv.size());
        const bool small = bits <= 200;
        for (int lo = 0; lo < bits; lo += 16) {
            if (!mc::begin("sparse", i, lo)) continue;
            mc::text(cname(c));
            const Basis& b = basis(cs, i);
            if (b.rank() != std::unique_ptr<G>(make(c))->bitSize()) continue;
            mc::nontrivial();
            bool bad = false;
            for (int p = lo; p < lo + 16 && p < bits && !bad; p++) for (int q = -1; q < bits && !bad; q++) {
                // one live bit alone, or with a second one (all pairs in small states, the same column otherwise)
                if (q >= 0 && (q <= p || !(small || (lv[q] - lv[p]) % 32 == 0))) continue;
                vector<uint64_t> st(nwords(c), 0);
                auto put = [&](int x) { int w = W == 32 ? 32 : 64; st[x / w] ^= uint64_t(1) << (x % w); };
                put(lv[p]); if (q >= 0) put(lv[q]);
                Row w = refwin(c, st, K);
                std::unique_ptr<G> g(b.conjure(w));
                if (!g) { mc::count("states outside the span"); continue; }
                mc::state();
                int maxpos = q < 0 ? n : std::min(n, 3);
                for (int pos = 0; pos < maxpos && !bad; pos++) {
                    std::unique_ptr<G> a(make(c)); a->setZero();
                    for (int k = 0; k < pos; k++) a->generate();
                    a->add(*g);
                    if (!agrees("sparse", *a, w, 0, "state with live bits " + to_string(p) + "," + to_string(q) + " at position " + to_string(pos))) bad = true;
#if defined(GEN_DSFMT)
                    // equality of states, wherever each of them starts in its array
                    std::unique_ptr<G> o(make(c)); o->setZero();
                    if (!bad && (o->equals(*a) || a->equals(*o) || !a->equals(*g) || !g->equals(*a))) { mc::fail("equals", "equals() is wrong for the state with live bits " + to_string(p) + "," + to_string(q) + " at position " + to_string(pos)); bad = true; }
#endif
                    mc::trace();
                }
            }
        }
    }
}
#endif
#if defined(GEN_MT1)
// MT19937 is too large for elimination: states are reached through the module structure instead.
// Every state is r(T) s for one polynomial r below the characteristic polynomial and any s != 0.
static NTL::GF2X charpoly, inv0;
static const int DEG = 19937;
static NTL::GF2X numer(const vector<uint8_t>& s) {
    NTL::GF2X B, q;
    for (int i = 0; i < DEG; i++) if (s[i]) NTL::SetCoeff(B, DEG - 1 - i, 1);
    q = charpoly * B;
    return NTL::trunc(q >> DEG, DEG);
}
static G *apply(const NTL::GF2X& r, uint64_t seed, const Conf& c) {
    std::unique_ptr<G> x(make(c)); seedk(*x, seed);
    G *acc = make(c); acc->setZero();
    for (long j = 0; j <= NTL::deg(r); j++) { if (NTL::IsOne(NTL::coeff(r, j))) acc->add(*x); x->generate(); }
    mc::heartbeat = mc::heartbeat + 1;
    return acc;
}
static bool setup(const Conf& c) {
    if (NTL::deg(charpoly) > 0) return true;
    std::unique_ptr<G> g(make(c)); seedk(*g, mixk(0));
    NTL::vec_GF2 v; v.SetLength(2 * DEG); vector<uint8_t> s;
    for (int i = 0; i < 2 * DEG; i++) { int b = int(g->generate() >> 31); s.push_back(uint8_t(b)); v.put(i, b); }
    NTL::MinPolySeq(charpoly, v, DEG);
    if (NTL::deg(charpoly) != DEG) return false;
    inv0 = NTL::InvMod(numer(s), charpoly);
    return true;
}
static void part_basis(const vector<Conf>& cs) {
    for (int k = 0; k < 48; k++) {
        if (!mc::begin("cancelled", k)) continue;
        mc::nontrivial();
        if (!setup(cs[0])) { mc::count("not of full period"); continue; }
        std::unique_ptr<G> q(apply(charpoly, mixk(k), cs[0]));
        Row z(700, 0);
        for (int s = 0; s < 1300; s++) {
            if (!agrees("cancelled", *q, s % 100 ? Row(3, 0) : z, 1, "cancelled sum " + to_string(k) + " after " + to_string(s) + " steps")) return;
            q->generate(); mc::trace();
        }
    }
    for (int s = 0; s <= 1300; s += 13) {
        if (!mc::begin("zeroed", s)) continue;
        mc::nontrivial();
        for (int how = 0; how < 3; how++) {
            std::unique_ptr<G> x(make(cs[0])); seedk(*x, mixk(s));
            for (int k = 0; k < s; k++) x->generate();
            if (how == 0) x->setZero();
            else if (how == 1) { std::unique_ptr<G> y(cl(*x)); x->add(*y); }
            else x->add(*x);
            if (!agrees("zeroed", *x, Row(1300, 0), 1, string(how ? "x+x" : "setZero") + " after " + to_string(s) + " steps")) return;
            for (int k = 0; k < 1300; k++) { x->generate(); if (!x->isZero()) { mc::fail("zeroed-zero", "stepping the zero state makes it non-zero"); return; } }
        }
    }
}
static void part_sparse(const vector<Conf>& cs) {
    const std::set<int> allbits = {0, 1, 2, 300, 396, 397, 398, 621, 622, 623};
    for (int w = 0; w < 624; w++) for (int b = 0; b < 32; b++) {
        if (w == 0 && b < 31) continue;
        if (!mc::g.thorough && !allbits.count(w) && b != 0 && b != 13 && b != 31) continue;
        if (!mc::begin("sparse", w, b)) continue;
        mc::nontrivial();
        if (!setup(cs[0])) { mc::count("not of full period"); continue; }
        vector<uint64_t> st(624, 0); st[w] = uint64_t(1) << b;
        Row full = refwin(cs[0], st, DEG);
        vector<uint8_t> s; for (auto x : full) s.push_back(uint8_t(x >> 31));
        std::unique_ptr<G> g(apply(NTL::MulMod(numer(s), inv0, charpoly), mixk(0), cs[0]));
        Row win(full.begin(), full.begin() + 1300);
        if (window(*g, 1300) != win) { mc::count("states outside the span"); continue; }
        mc::state();
        for (int pos = 0; pos < 624; pos++) {
            std::unique_ptr<G> a(make(cs[0])); a->setZero();
            for (int k = 0; k < pos; k++) a->generate();
            a->add(*g);
            if (!agrees("sparse", *a, pos % 200 ? Row() : win, 0, "state with only bit " + to_string(b) + " of word " + to_string(w) + " at position " + to_string(pos))) return;
        }
        mc::trace();
    }
}
static vector<int> positions(int n) { return {0, 1, 2, 3, 226, 227, 396, 397, 622, 623, 624, 625, 1000, 1247, 1248}; }
#else
static vector<int> positions(int n) { vector<int> p; for (int i = 0; i <= 2 * n + 1; i++) p.push_back(i); return p; }
#endif
// ---- C: superposition for every pair of positions
static void part_pairs(const vector<Conf>& cs) {
    for (int i = 0; i < int(cs.size()); i++) {
        const Conf& c = cs[i];
        const int n = nwords(c) / WPR, K = winlen(c);
        for (int s : positions(n)) {
            if (!mc::begin("pairs", i, s)) continue;
            mc::text(cname(c)); mc::nontrivial();
            for (int t : positions(n)) {
                std::unique_ptr<G> x(make(c)), y(make(c));
                seedk(*x, mixk(s + 1)); seedk(*y, mixk(t + 7000));
                for (int k = 0; k < s; k++) x->generate();
                for (int k = 0; k < t; k++) y->generate();
                Row wx = window(*x, K), wy = window(*y, K), sum = wx; xorto(sum, wy);
                std::unique_ptr<G> z(cl(*x));
                z->add(*y);
                mc::state(3); mc::trace();
                string at = "x after " + to_string(s) + " steps plus y after " + to_string(t);
                if (!agrees("sum", *z, sum, zero(sum), at) || !agrees("sum-left", *x, wx, -1, at + ": original of the copy") || !agrees("sum-right", *y, wy, -1, at + ": the one added")) break;
                for (int k = 0; k < n + 1; k++) z->generate();
                z->add(*y); z->add(*x);
                if (n + 1 >= K - 2) continue;
                Row w2(sum.begin() + (n + 1) * WPR, sum.end());
                for (size_t k = 0; k < w2.size(); k++) w2[k] ^= wx[k] ^ wy[k];
                if (!agrees("sum-again", *z, w2, zero(w2), at + ", later both again")) break;
            }
        }
    }
}
#if defined(GEN_MT2) || defined(GEN_MTGP) || defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
// ---- the sizes the creators are made for
static vector<Conf> large(bool T) {
    vector<Conf> c; auto word = [](int t) { return mixk(t) | mixk(t + 17); }; (void)word;
    vector<int> ms = {11213, 19937, 44497}; if (T) { ms.push_back(2203); ms.push_back(4253);
#if defined(GEN_MTGP) || defined(GEN_SFMT) || defined(GEN_DSFMT)
        ms.push_back(110503); ms.push_back(216091);
#endif
    }
    for (int m : ms) {
#if defined(GEN_MT2)
        c.push_back({"mt", {uint64_t(m), uint64_t(2 + m % 61), 0x9908b0df, 0x9d2c5680, 0xefc60000}});
#elif defined(GEN_MTGP)
        Conf f = {"mtgp", {uint64_t(m), uint64_t(3 + m % 67), 13, 4}}; for (int i = 0; i < 8; i++) f.p.push_back(uint32_t(mixk(m + i)) & ~(i < 4 ? 15u : 0u)); c.push_back(f);
#elif defined(GEN_RMT)
        c.push_back({"rmt", {uint64_t(m), uint64_t(m % 71), mixk(m) | 1ull << 63, 0x7fffffdcbe0a0000ull, 0xfff7eee000000000ull}});
#elif defined(GEN_SFMT)
        c.push_back({"sfmt", {uint64_t(m), uint64_t(1 + m % 73), 18, 1, 11, 1, uint32_t(word(m)), uint32_t(word(m + 1)), uint32_t(word(m + 2)), uint32_t(word(m + 3))}});
#else
        c.push_back({"dsfmt", {uint64_t(m), uint64_t(1 + m % 71), 19, word(m) & 0xfffffffffffffull, word(m + 1) & 0xfffffffffffffull}});
#endif
    }
    return c;
}
static void part_large() {
    vector<Conf> cs = large(mc::g.thorough);
    for (int i = 0; i < int(cs.size()); i++) {
        const Conf& c = cs[i]; const int n = nwords(c) / WPR, K = n + 20;
        std::set<int> ps = {0, 1, 2, n - 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, n / 2, 127, 128, 255, 256, 257};
        for (int s : ps) {
            if (!mc::begin("large", i, s)) continue;
            mc::text(cname(c)); mc::nontrivial();
            std::unique_ptr<G> x(make(c)); seedk(*x, mixk(s + 1)); for (int k = 0; k < s; k++) x->generate();
            Row wx = window(*x, 2 * K), head(wx.begin(), wx.begin() + K * WPR), zz(K * WPR, 0); bool good = true;
            std::unique_ptr<G> y(make(c)); seedk(*y, mixk(7)); int at = 0;
            for (int t : ps) {
                for (; at < t; at++) y->generate();
                Row wy = window(*y, K), sum = head; xorto(sum, wy);
                std::unique_ptr<G> z(cl(*x)); z->add(*y); mc::state(3); mc::trace();
                string w = "x after " + to_string(s) + " steps plus y after " + to_string(t);
                if (!(good = agrees("sum", *z, sum, zero(sum), w) && agrees("sum-left", *x, head, -1, w + ": original of the copy") && agrees("sum-right", *y, wy, -1, w + ": the one added"))) break;
                // taking one of them away again leaves the other, wherever it has got to
                z->add(*y); if (!(good = agrees("sum-back", *z, head, 0, w + ", y again"))) break;
                z->add(*x); if (!(good = agrees("sum-none", *z, zz, 1, w + ", both again"))) break;
                for (int k = 0; k < t % 5; k++) z->generate();
                z->add(*y); if (!(good = agrees("sum-on", *z, wy, 0, w + ", then y on nothing"))) break;
                z->setZero(); if (!(good = agrees("sum-zeroed", *z, zz, 1, w + ", zeroed"))) break;
                z->add(*x); if (!(good = agrees("sum-rezeroed", *z, head, 0, w + ", zeroed, then x"))) break;
            }
            if (!good) break;
            // a copy is on its own
            std::unique_ptr<G> a(cl(*x)); for (int k = 0; k < K; k++) a->generate();
            if (!agrees("copy", *a, Row(wx.begin() + K * WPR, wx.end()), 0, "copy after " + to_string(s) + " and " + to_string(K) + " steps") || !agrees("copy-left", *x, head, 0, "original of that copy")) break;
        }
#if defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
        vector<int> lv = live(c); int total = int(lv.size());
        for (int lo = 0; lo < total; lo += 1024) {
            if (!mc::begin("large-bit", i, lo)) continue;
            std::unique_ptr<G> x(make(c)), z(make(c)); seedk(*x, 9); for (int k = 0; k < lo / 1024 + 3; k++) x->generate();
            for (int b = lo; b < total && b < lo + 1024; b++) {
                onebit(*z, b); bool e = z->isZero(); mc::state();
                if (e) { mc::fail("bit-zero", cname(c) + ": the state with bit " + to_string(b) + " alone is reported zero"); return; }
                if (b % 32 && !mc::g.thorough) continue;
                std::unique_ptr<G> a(cl(*x)); a->add(*z); a->add(*x);        // turned to the position of x
                if (a->isZero()) { mc::fail("bit-zero", cname(c) + ": the state with bit " + to_string(b) + " alone is reported zero at position " + to_string(lo / 1024 + 3)); return; }
                a->add(*z); if (!a->isZero()) { mc::fail("bit-zero", cname(c) + ": bit " + to_string(b) + " added twice is not reported zero"); return; }
                mc::trace();
            }
            mc::nontrivial();
        }
#endif
    }
}
#endif
// ---- D: the v-bit output
static void part_width(const vector<Conf>& cs) {
    for (int i = 0; i < int(cs.size()); i++) for (int v = 1; v <= W; v++) {
        if (!mc::begin("width", i, v)) continue;
        mc::nontrivial();
        const Conf& c = cs[i];
        for (int rv = 0; rv <= HASREV; rv++) for (int s = 0; s < 12; s++) {
            std::unique_ptr<G> x(make(c)); seedk(*x, mixk(s));
            Row w = window(*x, 10);
            for (int k = 0; k < 10; k++) {
                bool now = rv && (k % 5 != 4);
                rev(*x, now);
                Row o; putw(o, x->generate(v));
                mc::trans(); mc::state();
                if (o != topbits(&w[k * WPR], v, now)) {
                    mc::fail("width", cname(c) + " generate(" + to_string(v) + (now ? ") reversed is " : ") is ") + hexw(o, 0) + " for the output " + hexw(w, k) + ", expected " + hexw(topbits(&w[k * WPR], v, now), 0));
                    return;
                }
            }
            mc::trace();
        }
    }
}
// ---- E: all operation sequences on two objects
struct Mod { vector<std::pair<int, int>> at; bool rv; };       // freshly seeded streams, from where
static const int NSEED = 4, MAXLEN = 40;
static vector<Row> atoms;
static int cur_conf = -1;
static void load_atoms(const Conf& c) {
    atoms.clear();
    for (int k = 0; k < NSEED; k++) { std::unique_ptr<G> g(make(c)); seedk(*g, mixk(k)); Row r; for (int i = 0; i < MAXLEN + winlen(c) + 8; i++) putw(r, g->generate()); atoms.push_back(r); }
}
static Row future(const Mod& m, int K) {
    Row r(K * WPR, 0);
    for (auto& a : m.at) for (int i = 0; i < K * WPR; i++) r[i] ^= atoms[a.first][a.second * WPR + i];
    return r;
}
enum { STEP, STEPV, CLONE, ADD, ZERO, SEED1, SEED2, SELF, ASSIGN, REVON, REVOFF, NOPS };
static const char *opname[] = {"step", "stepv", "copy other", "add other", "zero", "seed 1", "seed 2", "add self", "assigned other", "reverse", "unreverse"};
template<class T> static void assign(T& a, const T& b) { if constexpr (std::is_copy_assignable<T>::value) a = b; }
static const bool ASSIGNS = std::is_copy_assignable<G>::value;
static bool play(const Conf& c, const vector<int>& ops, bool full) {
    std::unique_ptr<G> o[2] = { std::unique_ptr<G>(make(c)), std::unique_ptr<G>(make(c)) };
    Mod m[2]; seedk(*o[0], mixk(0)); seedk(*o[1], mixk(3));
    m[0] = { {{0, 0}}, false }; m[1] = { {{3, 0}}, false };
    auto name = [&]() { string s; for (int x : ops) s += string(s.empty() ? "" : "; ") + (x >= NOPS ? "B." : "A.") + opname[x % NOPS]; return s; };
    for (int x : ops) {
        int me = x / NOPS, he = 1 - me;
        switch (x % NOPS) {
        case STEP: case STEPV: {
            Row w = future(m[me], 1), g, want;
            if (x % NOPS == STEP) { putw(g, o[me]->generate()); want = w; }
            else { putw(g, o[me]->generate(W / 2 + 3)); want = topbits(&w[0], W / 2 + 3, m[me].rv); }
            for (auto& a : m[me].at) a.second++;
            if (g != want) { mc::fail("history", name() + ": an output on the way: " + diff(want, g)); return false; }
            break;
        }
        case CLONE: o[me].reset(cl(*o[he])); m[me] = m[he]; break;
        case ADD: o[me]->add(*o[he]); m[me].at.insert(m[me].at.end(), m[he].at.begin(), m[he].at.end()); break;
        case ZERO: o[me]->setZero(); m[me].at.clear(); break;
        case SEED1: seedk(*o[me], mixk(1)); m[me].at = {{1, 0}}; break;
        case SEED2: seedk(*o[me], mixk(2)); m[me].at = {{2, 0}}; break;
        case ASSIGN: assign(*o[me], *o[he]); m[me] = m[he]; break;
        case SELF: o[me]->add(*o[me]); m[me].at.clear(); break;
        case REVON: rev(*o[me], true); m[me].rv = HASREV; break;
        case REVOFF: rev(*o[me], false); m[me].rv = false; break;
        }
        mc::trans();
    }
    mc::trace();
    const int K = full ? winlen(c) : nwords(c) / WPR + 2;
    for (int k = 0; k < 2; k++) {
        Row w = future(m[k], K);
        // every other look is through the object itself, so that objects sharing storage would show
        if (o[k]->isZero() != zero(w)) { mc::fail("history-zero", name() + ": isZero() of " + (k ? "B" : "A") + " is " + (o[k]->isZero() ? "true" : "false")); return false; }
        Row v; putw(v, std::unique_ptr<G>(cl(*o[k]))->generate(5));
        if (v != topbits(&w[0], 5, m[k].rv)) { mc::fail("history-width", name() + ": the 5-bit output of a copy of " + (k ? "B" : "A") + " is " + hexw(v, 0) + ", expected " + hexw(topbits(&w[0], 5, m[k].rv), 0)); return false; }
    }
    Row wa = future(m[0], K), wb = future(m[1], K), ga, gb;
    for (int i = 0; i < K; i++) { putw(ga, o[0]->generate()); putw(gb, o[1]->generate()); }
    if (ga != wa) { mc::fail("history", name() + ": afterwards A: " + diff(wa, ga)); return false; }
    if (gb != wb) { mc::fail("history", name() + ": afterwards B: " + diff(wb, gb)); return false; }
    mc::state(2);
    return true;
}
static bool dfs(const Conf& c, vector<int>& ops, int left) {
    if (!play(c, ops, false)) return false;
    if (!left) return true;
    for (int x = 0; x < 2 * NOPS; x++) {
        if ((!HASREV && x % NOPS >= REVON) || (!ASSIGNS && x % NOPS == ASSIGN)) continue;
        ops.push_back(x);
        bool k = dfs(c, ops, left - 1);
        ops.pop_back();
        if (!k) return false;
    }
    return true;
}
static void part_history(const vector<Conf>& cs) {
    const int depth = (mc::g.thorough ? 5 : 4) - (nwords(cs[0]) > 100 ? 2 : 0);
    for (int i = 0; i < int(cs.size()); i++) {
        if (live(cs[i]).size() > 700 && live(cs[i]).size() < 10000) continue;
        if (i > 3 && !mc::g.thorough) break;
        for (int x = 0; x < 2 * NOPS; x++) for (int y = 0; y < 2 * NOPS; y++) {
            if (!HASREV && (x % NOPS >= REVON || y % NOPS >= REVON)) continue;
            if (!ASSIGNS && (x % NOPS == ASSIGN || y % NOPS == ASSIGN)) continue;
            if (!mc::begin("history", i, x, y)) continue;
            mc::text(cname(cs[i])); mc::nontrivial();
            if (cur_conf != i) { load_atoms(cs[i]); cur_conf = i; }
            vector<int> ops = {x};
            if (y == 0 && !play(cs[i], ops, true)) continue;
            ops.push_back(y);
            dfs(cs[i], ops, depth - 1);
        }
    }
}
// ---- objects assigned to one another, of one size and of two
static void part_assign(const vector<Conf>& cs) {
    if (!ASSIGNS) return;
    for (int i = 0; i < int(cs.size()); i++) for (int j = 0; j < int(cs.size()); j++) {
        if (std::max(nwords(cs[i]), nwords(cs[j])) > 100 && i != j) continue;
        if (!mc::begin("assign", i, j)) continue;
        mc::text(cname(cs[i]) + " assigned " + cname(cs[j])); mc::nontrivial();
        for (int s = 0; s < 4; s++) for (int t = 0; t < 4; t++) for (int rv = 0; rv <= HASREV; rv++) {
            std::unique_ptr<G> a(make(cs[i])), b(make(cs[j])); seedk(*a, mixk(1)); seedk(*b, mixk(2));
            for (int k = 0; k < s; k++) a->generate();
            for (int k = 0; k < t; k++) b->generate();
            if (rv) rev(*b, true);
            Row want = window(*std::unique_ptr<G>(cl(*b)), 2 * winlen(cs[j]));
            assign(*a, *a); assign(*a, *b); assign(*a, *a);
            Row head(want.begin(), want.begin() + want.size() / 2), tail(want.begin() + want.size() / 2, want.end());
            string w = to_string(s) + " and " + to_string(t) + " steps in";
            { std::unique_ptr<G> z(cl(*a)); z->add(*b); if (!z->isZero()) { mc::fail("assign-zero", w + ": the sum of an object and one it was assigned to is not zero"); return; } }
            Row va; putw(va, std::unique_ptr<G>(cl(*a))->generate(5));
            if (va != topbits(&want[0], 5, rv)) { mc::fail("assign-width", w + ": the 5-bit output is " + hexw(va, 0)); return; }
            Row g; for (int k = 0; k < winlen(cs[j]); k++) putw(g, a->generate());
            if (g != head) { mc::fail("assign", w + ": the object assigned to: " + diff(head, g)); return; }
            Row h; for (int k = 0; k < winlen(cs[j]); k++) putw(h, b->generate());
            if (h != head) { mc::fail("assign", w + ": the object assigned from: " + diff(head, h)); return; }
            b.reset(); g.clear(); for (int k = 0; k < winlen(cs[j]); k++) putw(g, a->generate());
            if (g != tail) { mc::fail("assign", w + ": the object assigned to, after the other is gone: " + diff(tail, g)); return; }
            mc::state(2); mc::trace();
        }
    }
}
// ---- what cannot be added: an object of another class (for TinyMT also one with other parameters)
struct Foreign : public MTToolBox::EquidistributionCalculatable<U> {
    U w[2048];
    Foreign() { for (auto& x : w) x = U(); }
    U generate() { return w[0]; }
    U generate(int) { return w[0]; }
    void seed(U v) { w[0] = v; }
    int bitSize() const { return 8 * int(sizeof(U)); }
    void setUpParam(MTToolBox::ParameterGenerator&) {}
    const string getHeaderString() { return ""; }
    const string getParamString() { return ""; }
    MTToolBox::EquidistributionCalculatable<U> *clone() const { return new Foreign(*this); }
    void add(MTToolBox::EquidistributionCalculatable<U>&) {}
    void setZero() {}
    bool isZero() const { return false; }
};
static void part_refuse(const vector<Conf>& cs) {
    for (int i = 0; i < int(cs.size()); i++) for (int s : positions(nwords(cs[i]) / WPR)) {
        if (!mc::begin("refuse", i, s)) continue;
        mc::text(cname(cs[i])); mc::nontrivial();
        std::unique_ptr<G> x(make(cs[i])); seedk(*x, mixk(s));
        for (int k = 0; k < s; k++) x->generate();
        const Row w = window(*x, winlen(cs[i]));
        auto refused = [&](MTToolBox::EquidistributionCalculatable<U>& o) { MTToolBox::EquidistributionCalculatable<U>& b = *x; mc::trace(); try { b.add(o); } catch (const std::exception&) { return true; } return false; };
        Foreign f;
        string at = "after " + to_string(s) + " steps: ";
        if (!refused(f)) { mc::fail("refuse", at + "an object of another class was added"); return; }
        if (!agrees("refuse", *x, w, -1, at + "an object of another class was refused")) return;
#if defined(GEN_TINY)
        for (int p = 0; p < int(cs[i].p.size()); p++) for (int b = 0; b < 32; b++) {
            Conf c = cs[i]; c.p[p] ^= uint64_t(1) << b;
            std::unique_ptr<G> o(make(c)); seedk(*o, mixk(s + 1));
            if (!refused(*o)) { mc::fail("refuse-param", at + "an object with other parameters was added: " + cname(c)); return; }
        }
        if (!agrees("refuse-param", *x, w, -1, at + "objects with other parameters were refused")) return;
#endif
        mc::state();
    }
}
#if defined(GEN_SFMT) || defined(GEN_DSFMT)
// ---- F: start position and weight modes.  X(0), X(1), ... are the 128-bit words of the
// recurrence; an output is read across two of them and may keep its upper elements from
// the one before.
#if defined(GEN_SFMT)
enum { NEL = 4 };
#else
enum { NEL = 2 };
#endif
typedef std::array<uint64_t, NEL> El;
static El elems(uint64_t lo, uint64_t hi) {
    El e;
#if defined(GEN_SFMT)
    e = { uint32_t(lo), lo >> 32, uint32_t(hi), hi >> 32 };
#else
    e = { lo, hi };
#endif
    return e;
}
static vector<vector<El>> xs;             // word streams of the seeds
struct MM { vector<std::pair<int, int>> at; El prev; int start, weight; };
static El X(const MM& m, int d) { El r{}; for (auto& a : m.at) for (int j = 0; j < NEL; j++) r[j] ^= xs[a.first][a.second + d][j]; return r; }
static El mstep(MM& m) {
    El p = X(m, 0), q = X(m, 1), r, o;
    for (int j = 0; j < NEL; j++) r[j] = j + m.start < NEL ? (m.start ? p[j + m.start] : q[j]) : q[j + m.start - NEL];
    if (!m.start) r = q;
    for (int j = 0; j < NEL; j++) o[j] = j < m.weight ? r[j] : m.prev[j];
    m.prev = r;
    for (auto& a : m.at) a.second++;
    return o;
}
static El got(const U& u) { return elems(u.u64[0], u.u64[1]); }
static string hx(const El& e) { return join(vector<uint64_t>(e.begin(), e.end())); }
static void load_words(const Conf& c) {
    xs.clear();
    for (int k = 0; k < NSEED; k++) {
        std::unique_ptr<G> g(make(c)); seedk(*g, mixk(k));
        U p = g->getParityValue();                  // the newest word
        vector<El> v = { got(p) };
#if defined(GEN_DSFMT)
        // the check word of dSFMT is the lung; the newest word comes out of start mode 1 (upper half only)
        { std::unique_ptr<G> h(cl(*g)); h->setStartMode(1); U q = h->generate(); v[0] = { 0, q.u64[0] }; }
#endif
        for (int i = 0; i < 60; i++) v.push_back(got(g->generate()));
        xs.push_back(v);
    }
}
enum { F_STEP, F_CLONE, F_ADD, F_ZERO, F_SEED, F_START, F_WEIGHT = F_START + NEL, F_N = F_WEIGHT + NEL };
static bool mplay(const Conf& c, const vector<int>& ops) {
    std::unique_ptr<G> o[2] = { std::unique_ptr<G>(make(c)), std::unique_ptr<G>(make(c)) };
    MM m[2] = { {{{0, 0}}, El{}, 0, NEL}, {{{1, 0}}, El{}, 0, NEL} };
    for (int k = 0; k < 2; k++) seedk(*o[k], mixk(k));
    auto name = [&]() {
        string s;
        for (int x : ops) {
            int op = x % F_N; s += x >= F_N ? " B." : " A.";
            if (op >= F_WEIGHT) s += "weight" + to_string(op - F_WEIGHT + 1); else if (op >= F_START) s += "start" + to_string(op - F_START);
            else { const char *nm[] = {"step", "copy", "add", "zero", "seed"}; s += nm[op]; }
        }
        return s;
    };
    for (int x : ops) {
        int me = x / F_N, he = 1 - me, op = x % F_N;
        if (op >= F_WEIGHT) { o[me]->setWeightMode(op - F_WEIGHT + 1); m[me].weight = op - F_WEIGHT + 1; m[me].prev = El{}; }
        else if (op >= F_START) { o[me]->setStartMode(op - F_START); m[me].start = op - F_START; }
        else switch (op) {
        case F_STEP: { El w = mstep(m[me]), g = got(o[me]->generate()); if (w != g) { mc::fail("modes", name() + ": an output is " + hx(g) + ", expected " + hx(w)); return false; } break; }
        case F_CLONE: o[me].reset(cl(*o[he])); m[me] = m[he]; break;
        case F_ADD: o[me]->add(*o[he]); m[me].at.insert(m[me].at.end(), m[he].at.begin(), m[he].at.end()); for (int j = 0; j < NEL; j++) m[me].prev[j] ^= m[he].prev[j]; break;
        case F_ZERO: o[me]->setZero(); m[me].at.clear(); m[me].prev = El{}; break;
        default: seedk(*o[me], mixk(2)); m[me].at = {{2, 0}}; m[me].prev = El{}; break;
        }
        mc::trans();
    }
    mc::trace(); mc::state(2);
    for (int k = 0; k < 2; k++) {
        MM f = m[k]; bool z = true; std::unique_ptr<G> g(cl(*o[k]));
        for (int i = 0; i < nwords(c) / 2 + 3; i++) {
            El w = mstep(f), r = got(g->generate());
            for (auto e : w) if (e) z = false;
            if (w != r) { mc::fail("modes", name() + ": then output " + to_string(i) + " of " + (k ? "B" : "A") + " is " + hx(r) + ", expected " + hx(w)); return false; }
        }
        if (o[k]->isZero() != z) { mc::fail("modes-zero", name() + ": isZero() of " + (k ? "B" : "A") + " is " + (z ? "false" : "true")); return false; }
    }
    return true;
}
static bool mdfs(const Conf& c, vector<int>& ops, int left) {
    if (!mplay(c, ops)) return false;
    if (!left) return true;
    for (int x = 0; x < 2 * F_N; x++) { ops.push_back(x); bool k = mdfs(c, ops, left - 1); ops.pop_back(); if (!k) return false; }
    return true;
}
static void part_modes(const vector<Conf>& cs) {
    int have = -1;
    for (int i = 0; i < std::min<int>(cs.size(), mc::g.thorough ? 3 : 1); i++) for (int x = 0; x < 2 * F_N; x++) for (int y = 0; y < 2 * F_N; y++) {
        if (!mc::begin("modes", i, x, y)) continue;
        mc::nontrivial();
        if (have != i) { load_words(cs[i]); have = i; }
        vector<int> ops = {x, y};
        mdfs(cs[i], ops, mc::g.thorough ? 3 : 2);
    }
    // long runs in every pair of modes from every start
    for (int i = 0; i < int(cs.size()); i++) for (int s = 0; s < NEL; s++) for (int w = 1; w <= NEL; w++) {
        if (!mc::begin("run", i, s, w)) continue;
        mc::nontrivial();
        if (have != i) { load_words(cs[i]); have = i; }
        vector<int> ops = { F_START + s, F_WEIGHT + w - 1 };
        bool k = true;
        for (int t = 0; t < 2 * nwords(cs[i]) / 2 + 3 && k; t++) { k = mplay(cs[i], ops); ops.push_back(F_STEP); }
    }
    // only the remembered elements left: words cancelled, previous word any single bit
    for (int i = 0; i < int(cs.size()); i++) for (int s = 0; s < NEL; s++) for (int w = 1; w <= NEL; w++) {
        if (!mc::begin("memory", i, s, w)) continue;
        mc::text(cname(cs[i])); mc::nontrivial();
        const Conf& c = cs[i];
        vector<std::pair<Row, std::unique_ptr<G>>> es; vector<int> pv;
        auto one = [&](uint64_t k, Row& r) {
            G *a = make(c); a->setStartMode(s); a->setWeightMode(w); seedk(*a, mixk(k));
            std::unique_ptr<G> full(cl(*a)); full->setWeightMode(NEL);
            r.clear(); putw(r, full->generate());
            a->generate();
            std::unique_ptr<G> b(cl(*a)); b->setWeightMode(w);        // forgets the previous word
            a->add(*b);
            return a;
        };
        for (int k = 0; k < 400; k++) {
            Row r; std::unique_ptr<G> a(one(k, r));
            for (size_t j = 0; j < es.size(); j++) if (r[pv[j] >> 6] >> (pv[j] & 63) & 1) { xorto(r, es[j].first); a->add(*es[j].second); }
            int p = lowbit(r);
            if (p < 0) { if (!a->isZero()) { mc::fail("memory", "cancelled object not zero"); return; } continue; }
            for (size_t j = 0; j < es.size(); j++) if (es[j].first[p >> 6] >> (p & 63) & 1) { xorto(es[j].first, r); es[j].second->add(*a); }
            es.emplace_back(r, std::move(a)); pv.push_back(p);
        }
        bool fine = true;
        auto check = [&](const Row& r, const G& g) {
            El e = elems(r[0], r[1]), want;
            bool z = true;
            for (int j = 0; j < NEL; j++) { want[j] = j < w ? 0 : e[j]; if (want[j]) z = false; }
            if (g.isZero() != z) { mc::fail("memory-zero", "weight " + to_string(w) + " start " + to_string(s) + ": words zero, previous " + hx(e) + ": isZero() is " + (z ? "false" : "true")); fine = false; return; }
            std::unique_ptr<G> f(cl(g));
            El o = got(f->generate()), o2 = got(f->generate());
            if (o != want || o2 != El{}) { mc::fail("memory", "previous " + hx(e) + " gives " + hx(o) + " then " + hx(o2)); fine = false; }
            mc::state(); mc::trans(2); mc::trace();
        };
        for (size_t j = 0; j < es.size() && fine; j++) {
            check(es[j].first, *es[j].second);
            for (size_t k = 0; k < j && fine; k++) { std::unique_ptr<G> g(cl(*es[j].second)); g->add(*es[k].second); Row r = es[j].first; xorto(r, es[k].first); check(r, *g); }
        }
        mc::outcome("independent previous words", long(es.size()));
    }
}
#endif
void mc_main() {
    vector<Conf> cs = confs(mc::g.thorough);
    part_basis(cs);
    part_sparse(cs);
    part_pairs(cs);
    part_width(cs);
#if defined(GEN_MT2) || defined(GEN_MTGP) || defined(GEN_RMT) || defined(GEN_SFMT) || defined(GEN_DSFMT)
    part_large();
#endif
    part_history(cs);
    part_assign(cs);
    part_refuse(cs);
#if defined(GEN_SFMT) || defined(GEN_DSFMT)
    part_modes(cs);
#endif
}
