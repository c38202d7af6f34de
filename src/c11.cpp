// C11: the level-by-level tempering search against an exhaustive level-wise reference.
#include "mc.hpp"
#include "temp.hpp"
#include <set>
#include <MTToolBox/AlgorithmBestBits.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

// all candidates of level v from the parameter sets of the level before: bit v (from the top) of every parameter and
// bit v + shift of the following parameter, of the first one, free
template<class U> static int reference(const gen::Design<U>& d, int k, uint64_t x, int limit, std::set<vector<U> >& best, uint64_t& seen, bool& mattered) {
    const int w = int(sizeof(U) * 8);
    int np = int(d.shifts.size());
    best.clear();
    best.insert(vector<U>(np, U(0)));
    int last = 0;
    for (int v = 0; v < limit; v++) {
        std::map<vector<U>, int> cand;
        int m = 1 << 30, worst = -1;
        vector<std::pair<int, int> > free;               // (parameter, bit from the top)
        for (int i = 0; i < np; i++) free.push_back({ i, v });
        if (np == 2 && v + d.shifts[1] < w) free.push_back({ 0, v + d.shifts[1] });
        for (auto& b : best) for (int c = 0; c < (1 << free.size()); c++) {
            vector<U> t = b;
            for (size_t f = 0; f < free.size(); f++) {
                U bit = U(U(1) << (w - 1 - free[f].second));
                if (c >> f & 1) t[free[f].first] = U(t[free[f].first] | bit); else t[free[f].first] = U(t[free[f].first] & ~bit);
            }
            // bits whose source lies outside the word do nothing
            for (int i = 0; i < np; i++) t[i] = U(t[i] & U(U(~U(0)) << d.shifts[i]));
            if (cand.count(t)) continue;
            int dl = d.delta(k, x, t, false, v + 1, d.size, d.size);
            cand[t] = dl; seen++;
            if (dl < m) m = dl;
            if (dl > worst) worst = dl;
        }
        if (worst != m) mattered = true;
        best.clear();
        for (auto& c : cand) if (c.second == m) best.insert(c.first);
        last = m;
    }
    return last;
}
template<class U> static void check(const gen::Design<U>& d, int limit, const vector<U>& initial, bool startrev, bool verbose) {
    std::set<vector<U> > best;
    uint64_t seen = 0; bool mattered = false;
    int want = reference(d, 0, d.seedstate, limit, best, seen, mattered);
    mc::state(seen); mc::trans(best.size());
    gen::Temp<U> g(d);
    g.raw = initial; g.setUpTempering();
    if (startrev) g.setReverseOutput();
    bool ok = mc::guarded("exception", [&] {
        mc::Quiet q;
        int np = int(d.shifts.size());
        vector<int> sh = d.shifts;
        AlgorithmBestBits<U> st(int(sizeof(U) * 8), &sh[0], np, limit);
        sh.assign(np, 99);                                // the caller's array is its own
        st(g, verbose);
        if (st.isLSBTempering()) mc::fail("islsb", "isLSBTempering");
    });
    if (!ok) return;
    mc::trace();
    if (mattered) mc::nontrivial();
    if (g.rev) { mc::fail("order", "the generator is left in reversed bit order"); return; }
    if (g.raw != g.act) { mc::fail("prepared", "the chosen tempering parameters are not in force"); return; }
    if (g.x != d.seedstate) { mc::fail("state", "the generator's state was changed"); return; }
    int got = d.delta(0, g.x, g.raw, false, limit, d.size, d.size);
    string p;
    for (auto r : g.raw) p += " " + mc::hex(r);
    if (got != want) { mc::fail("best", "left parameters" + p + " with defect " + to_string(got) + ", the best candidates have " + to_string(want)); return; }
    vector<U> norm = g.raw;
    for (size_t i = 0; i < norm.size(); i++) norm[i] = U(norm[i] & U(U(~U(0)) << d.shifts[i]));
    if (!best.count(norm)) { mc::fail("candidate", "left parameters" + p + " are not among the best candidates of the last level"); return; }
    mc::outcome("defect", want);
    if (mc::want_sample()) mc::sample(mc::describe() + ": parameters" + p + ", defect " + to_string(want) + ", " + to_string(best.size()) + " best sets");
}
template<class U> static void config(int np, int s0, int s1, int limit, int mods) {
    static const uint64_t mod[] = { 0x83, 0x201b, 0x57, 0x409, 0x20009, 0x11d, 0x55, 0x1053, 0x80009, 0x805 };
    for (int mi = 0; mi < mods; mi++) for (int sp = 1; sp <= 3; sp++) for (int f = 0; f < 3; f++) {
        if (!mc::begin("level", sizeof(U) * 8, np, s0, s1, limit, mi, sp, f)) continue;
        gen::Design<U> d;
        uint64_t fold = f == 0 ? ~0ull : f == 1 ? 0x5b5b6d6d5b5b6d6dull : 0x3333ff0f0ff01ff3ull;
        d.c.push_back(gen::spread<U>(mod[mi], d.B, sp, fold));
        d.size = d.mexp = orc::deg64(mod[mi]);
        d.shifts.push_back(s0); if (np > 1) d.shifts.push_back(s1);
        check<U>(d, limit, vector<U>(np, (f & 1) ? U(0) : U(~U(0))), f == 1, mi == 0);
    }
}
// more parameters than two: which lower bits of the sets a level tries is left open, but the bit of the level in every
// parameter is among them, so one level leaves a set no worse than every choice of the top bits
template<class U> static void several(int np, int s0, int ds, int mods) {
    static const uint64_t mod[] = { 0x83, 0x201b, 0x57, 0x409, 0x11d, 0x1053 };
    const int w = int(sizeof(U) * 8);
    for (int mi = 0; mi < mods; mi++) for (int sp = 1; sp <= 3; sp++) for (int f = 0; f < 3; f++) {
        if (!mc::begin("several", w, np, s0, ds, mi, sp, f)) continue;
        gen::Design<U> d;
        uint64_t fold = f == 0 ? ~0ull : f == 1 ? 0x5b5b6d6d5b5b6d6dull : 0x3333ff0f0ff01ff3ull;
        // a generator whose top bits are dead unless tempering brings lower ones up
        d.c.push_back(gen::spread<U>(mod[mi], d.B, sp, fold));
        d.size = d.mexp = orc::deg64(mod[mi]);
        for (int i = 0; i < np; i++) d.shifts.push_back(s0 + i * ds);
        int best = 1 << 30, worst = -1;
        for (int c = 0; c < (1 << np); c++) {
            vector<U> t(np, U(0));
            for (int i = 0; i < np; i++) if (c >> i & 1) t[i] = U(U(1) << (w - 1));
            int dl = d.delta(0, d.seedstate, t, false, 1, d.size, d.size);
            best = std::min(best, dl); worst = std::max(worst, dl); mc::state();
        }
        gen::Temp<U> g(d);
        g.raw = vector<U>(np, f == 2 ? U(~U(0)) : U(0)); g.setUpTempering();
        vector<int> sh = d.shifts;
        bool ok = mc::guarded("exception", [&] { mc::Quiet q; AlgorithmBestBits<U> st(w, &sh[0], np, 1); st(g, sp == 2); });
        if (!ok) continue;
        mc::trace(); mc::trans(1 << np); if (best != worst) mc::nontrivial();
        if (g.rev) mc::fail("order", "the generator is left in reversed bit order");
        else if (g.raw != g.act) mc::fail("prepared", "the chosen tempering parameters are not in force");
        else if (g.x != d.seedstate) mc::fail("state", "the generator's state was changed");
        else {
            int got = d.delta(0, g.x, g.raw, false, 1, d.size, d.size);
            if (got > best) mc::fail("best", "one level left defect " + to_string(got) + ", a choice of the top bits has " + to_string(best));
            mc::outcome("several", got);
        }
    }
}
void mc_main() {
    for (int s0 = 1; s0 < 7; s0 += 2) for (int ds = 1; ds < 4; ds++) {
        several<uint16_t>(3, s0, ds, 4); several<uint32_t>(3, s0 * 2, ds * 3, 4); several<uint64_t>(3, s0 * 3, ds * 7, 2);
        several<uint16_t>(4, s0, ds, 1); several<uint32_t>(4, s0, ds * 4, 1);
    }
    bool T = mc::g.thorough;
    int M = T ? 10 : 5;
    for (int s0 = 1; s0 < 16; s0 += T ? 1 : 2) {
        config<uint16_t>(1, s0, 0, 6, M);
        for (int s1 = 1; s1 < 16; s1 += T ? 2 : 3) config<uint16_t>(2, s0, s1, 3, T ? M : 3);
    }
    config<uint16_t>(2, 3, 7, 4, M); config<uint16_t>(2, 7, 3, 4, M); config<uint16_t>(2, 2, 11, 4, M); config<uint16_t>(2, 9, 9, 4, M);
    config<uint16_t>(1, 5, 0, 9, M); config<uint16_t>(1, 1, 0, 12, 2);
    config<uint32_t>(2, 7, 15, 3, M); config<uint32_t>(2, 12, 18, 3, M); config<uint32_t>(1, 11, 0, 7, M); config<uint32_t>(2, 16, 14, 4, 3); config<uint32_t>(2, 2, 1, 5, 2);
    config<uint64_t>(2, 17, 37, 3, M); config<uint64_t>(1, 29, 0, 6, M); config<uint64_t>(2, 3, 45, 4, 3);
    config<uint32_t>(2, 7, 15, 0, 1);
    if (T) { config<uint16_t>(2, 3, 7, 6, 4); config<uint32_t>(2, 7, 15, 5, 6); config<uint64_t>(2, 17, 37, 5, 4); config<uint16_t>(1, 2, 0, 14, 3); config<uint16_t>(2, 4, 2, 8, 1); }
}
