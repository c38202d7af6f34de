// C10: the stepwise tempering search against an exhaustive judgement of each of its steps.
#include "mc.hpp"
#include "temp.hpp"
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

template<class U> static int popc(U x) { return __builtin_popcountll(uint64_t(x)); }

template<class U, int BL, int PN, int TRY, int STEP, bool LSB>
static void check(const gen::Design<U>& d, const vector<U>& initial, bool startrev, bool verbose) {
    gen::Temp<U> g(d);
    g.raw = initial; g.setUpTempering();
    for (int i = 0; i < PN; i++) g.act[i] = U(g.act[i] ^ U(0x5)) ;          // stale preparation
    if (startrev) g.setReverseOutput();
    uint64_t x0 = g.x;
    long live = gen::Temp<U>::live;
    bool ok = mc::guarded("exception", [&] {
        mc::Quiet q;
        AlgorithmPartialBitPattern<U, BL, PN, TRY, STEP, LSB> st;
        st(g, verbose);
        if (st.isLSBTempering() != LSB) mc::fail("islsb", "isLSBTempering is wrong");
    });
    if (!ok) return;
    mc::trace(); mc::state();
    if (g.rev) { mc::fail("order", "the generator is left in reversed bit order"); return; }
    if (g.raw != g.act) { mc::fail("prepared", "the chosen tempering parameters are not in force"); return; }
    if (g.x != x0) { mc::fail("state", "the generator's state was changed"); return; }
    // bits that may change
    auto bitpos = [&](int j) { return LSB ? j : BL - 1 - j; };
    U allowed = 0;
    for (int j = 0; j < TRY && j < BL; j++) allowed = U(allowed | U(1) << bitpos(j));
    for (int i = 0; i < PN; i++)
        if ((g.raw[i] ^ initial[i]) & U(~allowed)) { mc::fail("bits", "parameter " + to_string(i) + " changed outside the bits to try: " + mc::hex(initial[i]) + " -> " + mc::hex(g.raw[i])); return; }
    // every step
    vector<U> cur = initial;
    int dfirst = -1, dlast = -1; bool mattered = false;
    for (int p = 0; p < TRY; p += STEP) {
        int e = p + STEP < TRY ? p + STEP : TRY;
        for (int i = 0; i < PN; i++) {
            U bits = 0;
            for (int j = p; j < e; j++) bits = U(bits | U(1) << bitpos(j));
            U chosen = U(g.raw[i] & bits);
            int cd = -1, cc = popc(chosen), bd = 1 << 30, bc = -1; U bp = 0;
            for (int v = 0; v < (1 << (e - p)); v++) {
                U pat = 0;
                for (int j = p; j < e; j++) if (v >> (j - p) & 1) pat = U(pat | U(1) << bitpos(j));
                vector<U> t = cur;
                t[i] = U((t[i] & ~bits) | pat);
                int dl = d.delta(g.k, g.x, t, LSB, BL, d.size, d.size);
                mc::trans();
                if (bd != 1 << 30 && dl != bd) mattered = true;
                if (dl < bd || (dl == bd && popc(pat) > bc)) { bd = dl; bc = popc(pat); bp = pat; }
                if (pat == chosen) cd = dl;
            }
            if (dfirst < 0) dfirst = bd;
            dlast = bd;
            if (cd != bd || cc != bc) {
                mc::fail("step", "bits " + to_string(p) + ".." + to_string(e - 1) + " of parameter " + to_string(i) + ": chosen " + mc::hex(chosen) + " with defect " + to_string(cd)
                         + ", but " + mc::hex(bp) + " has defect " + to_string(bd) + (cd == bd ? " and more bits" : ""));
                return;
            }
            cur[i] = U((cur[i] & ~bits) | chosen);
        }
    }
    if (mattered) mc::nontrivial();
    mc::outcome("params", to_string(uint64_t(g.raw[0])) + "/" + to_string(PN));
    if (gen::Temp<U>::live != live) mc::count("copies_left_behind");
    if (mc::want_sample()) mc::sample(mc::describe() + ": defect " + to_string(dfirst) + " -> " + to_string(dlast) + ", first parameter " + mc::hex(g.raw[0]));
}
template<class U, int BL, int PN, int TRY, int STEP, bool LSB> static void config(int mods) {
    static const uint64_t mod[] = { 0x25, 0x83, 0x57, 0x13, 0x11d, 0x409, 0x55, 0x1f5, 0x25b, 0x805, 0x1053, 0x201b };
    for (int mi = 0; mi < mods; mi++) for (int sp = 1; sp <= 4; sp++) for (int sh = 0; sh < 4; sh++) {
        if (!mc::begin(LSB ? "lsb" : "msb", sizeof(U) * 8, BL, PN, TRY, STEP, mi, sp, sh)) continue;
        gen::Design<U> d;
        d.B = BL;
        uint64_t fold = sh == 0 ? ~0ull : sh == 1 ? 0x5b5b6d6d5b5b6d6dull : sh == 2 ? 0xf0f0cccc3333ff0full : 0x0707070707070707ull;
        d.c.push_back(gen::spread<U>(mod[mi], BL, sp, fold));
        d.size = d.mexp = orc::deg64(mod[mi]);
        for (int i = 0; i < PN; i++) d.shifts.push_back(1 + (i * 3 + sh * 2 + sp) % (BL - 1));
        vector<U> init;
        for (int i = 0; i < PN; i++) init.push_back((sp & 1) ? U(0) : U((0x9d2c5680a5a5f00dull >> (i * 7)) & d.wmask()));
        check<U, BL, PN, TRY, STEP, LSB>(d, init, (sh + sp) & 1, mi == 0 && sp == 2);
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    int M = T ? 12 : 6;
    config<uint16_t, 16, 1, 16, 4, false>(M); config<uint16_t, 16, 1, 16, 4, true>(M);
    config<uint16_t, 16, 2, 11, 3, false>(M); config<uint16_t, 16, 2, 11, 3, true>(M);
    config<uint16_t, 16, 3, 7, 2, false>(M); config<uint16_t, 16, 3, 5, 1, true>(M);
    config<uint16_t, 16, 1, 5, 5, false>(M); config<uint16_t, 16, 1, 3, 5, true>(M);
    config<uint32_t, 32, 1, 13, 5, false>(M); config<uint32_t, 32, 1, 9, 5, true>(M);
    config<uint32_t, 32, 2, 9, 3, false>(M); config<uint32_t, 32, 2, 32, 2, true>(M > 2 ? (T ? 6 : 2) : M);
    config<uint64_t, 64, 1, 8, 4, false>(T ? M : 3); config<uint64_t, 64, 2, 5, 2, true>(T ? M : 3); config<uint64_t, 64, 1, 63, 3, false>(T ? 5 : 2);
    // tempering variable shorter than the word
    config<uint32_t, 16, 1, 16, 4, false>(M); config<uint32_t, 16, 2, 12, 3, true>(M); config<uint64_t, 24, 1, 12, 3, false>(M); config<uint64_t, 24, 1, 12, 3, true>(M);
    config<uint32_t, 7, 2, 7, 2, false>(M); config<uint16_t, 9, 1, 9, 4, true>(M);
    if (T) { config<uint16_t, 16, 1, 16, 8, false>(M); config<uint16_t, 16, 2, 16, 6, true>(M); config<uint32_t, 32, 1, 32, 8, false>(4); config<uint32_t, 32, 4, 23, 5, false>(4); config<uint32_t, 32, 4, 9, 5, true>(M); config<uint64_t, 64, 2, 63, 4, false>(2); }
}
