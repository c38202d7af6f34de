// C14: the sequential parameter counter over all operation histories.
#include "mc.hpp"
#include <MTToolBox/util.hpp>
#include <MTToolBox/Sequential.hpp>
using namespace MTToolBox;
using std::vector; using std::to_string; using std::string;

template<class T> struct Model {
    T next, mask; bool dead;
    Model(T m, T s) : next(s), mask(m), dead(false) {}
    bool draw(T& v) { if (dead) return false; v = T(next ^ mask); if (next == 0) dead = true; else next = T(next - 1); return true; }
    void reseed(T s) { next = s; dead = false; }
};
// how: 0 next, 1 getUint32, 2 getUint64
template<class T> static bool draw(Sequential<T>& q, Model<T>& m, int how, const string& at) {
    T want; bool have = m.draw(want);
    uint64_t got = 0; bool thrown = false;
    try { got = how == 0 ? uint64_t(q.next()) : how == 1 ? uint64_t(q.getUint32()) : q.getUint64(); }
    catch (const std::underflow_error&) { thrown = true; }
    mc::trans();
    if (thrown == have) { mc::fail("exhaustion", at + (thrown ? ": reported exhaustion too early" : ": " + mc::hex(got) + " after the last value")); return false; }
    if (have) {
        uint64_t w = how == 1 ? uint64_t(uint32_t(want)) : uint64_t(want);
        if (got != w) { mc::fail("value", at + ": expected " + mc::hex(w) + " got " + mc::hex(got)); return false; }
    } else mc::count("exhausted_draws");
    return true;
}
template<class T> static void histories(int depth) {
    const int OPS = 9;
    uint64_t total = 1;
    for (int i = 0; i < depth; i++) total *= OPS;
    const T top = T(~T(0));
    T masks[] = { 0, T(5), top };
    for (int s0 = 0; s0 < 4; s0++) for (int mi = 0; mi < 3; mi++) for (uint64_t c = 0; c < total; c++) {
        if (!mc::begin("history", sizeof(T) * 8, depth, s0, mi, c)) continue;
        T start = s0 < 3 ? T(s0) : T(top - 1);
        Sequential<T> *q = new Sequential<T>(masks[mi], start), *other = 0;
        Model<T> m(masks[mi], start), om(0, 0);
        uint64_t z = c;
        string h;
        bool ok = true;
        mc::guarded("exception", [&] {
            for (int i = 0; i < depth && ok; i++, z /= OPS) {
                int op = int(z % OPS);
                h += " op" + to_string(op);
                switch (op) {
                case 0: case 1: case 2: ok = draw(*q, m, op, h); break;
                case 3: q->reseed(T(1)); m.reseed(T(1)); break;
                case 4: q->seed(uint32_t(2)); m.reseed(T(2)); break;
                case 5: q->seed(uint64_t(0)); m.reseed(T(0)); break;
                case 6: delete other; other = new Sequential<T>(*q); om = m; break;              // a copy continues on its own
                case 7: if (other) { std::swap(q, other); std::swap(m, om); } else ok = draw(*q, m, 0, h); break;
                case 8: if (!other) other = new Sequential<T>(); *other = *q; om = m; break;     // so does an assigned one
                }
            }
            for (int i = 0; i < 4 && ok; i++) { ok = draw(*q, m, i % 3, h + " end"); if (ok && other) ok = draw(*other, om, i % 3, h + " copy end"); }
        });
        mc::state(); mc::trace(); mc::nontrivial();
        delete q; delete other;
    }
}
// whole countdowns
template<class T> static void countdown(uint64_t maxs, uint64_t stride) {
    for (uint64_t s = 0; s <= maxs; s += stride) {
        if (!mc::begin("countdown", sizeof(T) * 8, s)) continue;
        for (int mi = 0; mi < 5; mi++) {
            T mask = mi == 0 ? T(0) : mi == 1 ? T(~T(0)) : mi == 2 ? T(0x55) : mi == 3 ? T(s) : T(T(1) << (sizeof(T) * 8 - 1));
            Sequential<T> q(mask, T(s));
            Model<T> m(mask, T(s));
            bool ok = true;
            for (uint64_t i = 0; i < s + 4 && ok; i++) ok = draw(q, m, int((i + mi) % 3), "draw " + to_string(i));
            if (!ok) break;
            q.reseed(T(s)); m.reseed(T(s));
            for (uint64_t i = 0; i < s + 2 && ok; i++) ok = draw(q, m, mi == 1 ? 1 : 2, "second round, draw " + to_string(i));
            mc::trace(2 * s + 6);
        }
        mc::state(); mc::nontrivial();
    }
}
void mc_main() {
    bool T = mc::g.thorough;
    histories<uint32_t>(T ? 7 : 5); histories<uint64_t>(T ? 6 : 5); histories<uint16_t>(4); histories<uint8_t>(4);
    countdown<uint8_t>(255, 1); countdown<uint16_t>(65535, T ? 97 : 4369); countdown<uint32_t>(600, 1); countdown<uint64_t>(600, 1);
    // without a mask and a start: every value as it is
    if (mc::begin("default")) {
        // in memory that held something else before
        alignas(16) unsigned char room[64];
        for (int fill = 0; fill < 256; fill += 5) {
            memset(room, fill, sizeof room);
            Sequential<uint8_t> *q = new (room) Sequential<uint8_t>(); Model<uint8_t> m(0, 255);
            for (int i = 0; i < 259; i++) if (!draw(*q, m, i % 3, "no arguments, draw " + to_string(i))) return;
            memset(room, fill, sizeof room);
            Sequential<uint32_t> *r = new (room) Sequential<uint32_t>(); Model<uint32_t> n(0, ~0u);
            for (int i = 0; i < 9; i++) if (!draw(*r, n, i % 3, "no arguments, draw " + to_string(i))) return;
            r->reseed(3); n.reseed(3);
            for (int i = 0; i < 6; i++) if (!draw(*r, n, i % 3, "no arguments, reseeded, draw " + to_string(i))) return;
            mc::state(2); mc::trace(274);
        }
        mc::nontrivial();
    }
    // the start value of the one-argument form, complete for the narrow types
    if (mc::begin("full8")) {
        for (int mk = 0; mk < 256; mk++) {
            Sequential<uint8_t> q{ uint8_t(mk) };
            Model<uint8_t> m(uint8_t(mk), 255);
            bool ok = true;
            std::set<uint8_t> seen;
            for (int i = 0; i < 259 && ok; i++) ok = draw(q, m, 0, "mask " + to_string(mk));
            if (!ok) break;
            if (q.bitSize() != 8) mc::fail("bitsize", "bitSize");
            mc::trace(259); mc::state(256);
        }
        mc::nontrivial();
        mc::sample("all 256 masks of the 8-bit counter count down completely");
    }
    if (mc::begin("full16")) {
        Sequential<uint16_t> q{ uint16_t(0x1234) };
        Model<uint16_t> m(0x1234, 65535);
        for (int i = 0; i < 65540; i++) if (!draw(q, m, i % 3, "draw " + to_string(i))) break;
        mc::trace(65540); mc::nontrivial();
    }
    // large start values and the wrap to exhaustion is never early
    for (int b = 0; b < 64; b++) {
        if (!mc::begin("large", b)) continue;
        uint64_t s = UINT64_C(1) << b;
        for (uint64_t d = 0; d < 3; d++) {
            Sequential<uint64_t> q(0x5a5a, s + d - 1); Model<uint64_t> m(0x5a5a, s + d - 1);
            for (int i = 0; i < 8; i++) if (!draw(q, m, i % 3, "start " + mc::hex(s + d - 1))) return;
            // the same by each of the ways to start it again
            const string at = "started again at " + mc::hex(s + d - 1);
            for (int way = 0; way < 3; way++) {
                auto again = [&](auto& c, auto& n) {
                    typedef decltype(n.next) U;
                    uint64_t v = s + d - 1;
                    if (way == 0) { c.reseed(U(v)); n.reseed(U(v)); } else if (way == 1) { c.seed(uint32_t(v)); n.reseed(U(uint32_t(v))); } else { c.seed(uint64_t(v)); n.reseed(U(v)); }
                    for (int i = 0; i < 6; i++) if (!draw(c, n, i % 3, at + " by way " + to_string(way))) return false;
                    return true;
                };
                for (int before = 0; before < 3; before++) {
                    Sequential<uint64_t> q8(0xa5a5a5a5a5a5a5a5ull, before); Model<uint64_t> m8(0xa5a5a5a5a5a5a5a5ull, before);
                    Sequential<uint32_t> q4(0xa5a5a5a5u, before); Model<uint32_t> m4(0xa5a5a5a5u, before);
                    Sequential<uint16_t> q2(0xa5a5, before); Model<uint16_t> m2(0xa5a5, before);
                    Sequential<uint8_t> q1(0xa5, before); Model<uint8_t> m1(0xa5, before);
                    for (int k = 0; k < before; k++) if (!draw(q8, m8, 0, at) || !draw(q4, m4, 0, at) || !draw(q2, m2, 0, at) || !draw(q1, m1, 0, at)) return;
                    if (!again(q8, m8) || !again(q4, m4) || !again(q2, m2) || !again(q1, m1)) return;
                    mc::trace(24); mc::state(4);
                }
            }
            if (b < 32) {
                Sequential<uint32_t> q4(0x5a5a, uint32_t(s + d - 1)); Model<uint32_t> m4(0x5a5a, uint32_t(s + d - 1));
                for (int i = 0; i < 8; i++) if (!draw(q4, m4, i % 3, "start " + mc::hex(s + d - 1))) return;
            }
            mc::trace(16);
        }
        mc::state(); mc::nontrivial();
    }
}
