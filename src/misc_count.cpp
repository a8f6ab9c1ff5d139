// C15: the ref counters against a plain number, in one thread.
#include "misc.hpp"
#include <cstdint>
#include <cstring>
#include <xmem/atomic_ref_count.hpp>
#include <xmem/local_ref_count.hpp>

namespace {
enum { INC, DEC, INCNZ, COUNT, MANY_INC, MANY_NZ, MANY_DEC, TO_ZERO, NEWC, FAR, NOPS };
const char* names[] = {"inc", "dec", "inc_nz", "count", "inc times", "inc_nz times", "dec times", "dec to", "new counter", "far"};
bool big, zero, after_zero, far_away;

template <typename RC> struct Hold { alignas(RC) unsigned char raw[sizeof(RC)]; RC* c; uint64_t v = 1; void fresh() { for (auto& b : raw) b = 0xA5; c = new (raw) RC; v = 1; } };
// A counter which has had billions of increments, without doing them: if the counter is a plain number in memory, it can be given another.
// Whether it is one is seen by what it does: if it does not count from there, it is put back.
template <typename RC> bool put(RC& c, uint64_t from, uint64_t to) {
    uint32_t was, v = uint32_t(to);
    if (sizeof(RC) < 4) return false;
    void* p = &c;
    asm volatile("" : "+r"(p) :: "memory");
    std::memcpy(&was, p, 4);
    if (was != uint32_t(from)) return false;
    std::memcpy(p, &v, 4);
    asm volatile("" : "+r"(p) :: "memory");
    if (static_cast<const RC&>(c).count() == v) return true;
    std::memcpy(p, &was, 4);
    asm volatile("" : "+r"(p) :: "memory");
    return false;
}
#define EQ(expr, want, what) do { auto got = expr; if (uint64_t(got) != uint64_t(want)) eng::fail("%s: " what " gives %llu, expected %llu", name, static_cast<unsigned long long>(got), static_cast<unsigned long long>(want)); } while (0)

template <typename RC> void play(const char* name, const uint8_t* d, size_t n) {
    Hold<RC> h[2];
    h[0].fresh(); h[1].fresh();
    for (size_t i = 0; i + 8 <= n; i += 8) {
        auto o = d + i;
        auto& x = h[o[1] & 1];
        RC& c = *x.c; const RC& cc = c;
        uint64_t k = 1 + (o[2] | uint64_t(o[3]) << 8);
        if (o[4] == 0 && o[5] < 4) k <<= 8;   // now and then beyond 24 bits
        uint64_t room = 0xFFFFFFF0u - x.v;
        if (k > room) k = room;
        switch (o[0] % NOPS) {
        case INC: if (room) EQ(c.inc(), ++x.v, "inc()"); break;
        case DEC: if (x.v) EQ(c.dec(), --x.v, "dec()"); break;
        case INCNZ:
            if (!x.v) { after_zero = true; EQ(c.inc_nz(), 0, "inc_nz() of zero"); EQ(cc.count(), 0, "count() after inc_nz() of zero"); }
            else if (room) EQ(c.inc_nz(), ++x.v, "inc_nz()");
            break;
        case COUNT: break;
        case MANY_INC: if (x.v) for (uint64_t j = 0; j < k; ++j) EQ(c.inc(), ++x.v, "inc()"); break;
        case MANY_NZ: if (x.v) for (uint64_t j = 0; j < k; ++j) EQ(c.inc_nz(), ++x.v, "inc_nz()"); break;
        case MANY_DEC: for (uint64_t j = 0; j < k && x.v; ++j) EQ(c.dec(), --x.v, "dec()"); break;
        case FAR:
            if (x.v) {
                uint64_t to = (uint64_t(1) << (12 + o[2] % 21)) + uint64_t(int64_t(int8_t(o[3])) / 8);
                if (to > 0xFFFFFFF0u) to = 0xFFFFFFF0u - o[3];
                if (put(c, x.v, to)) { x.v = to; far_away = true; }
            }
            break;
        case TO_ZERO: { if (x.v > (far_away ? 0x1FFFFu : 0xFFFFFFu)) { if (!put(c, x.v, 900)) break; x.v = 900; } uint64_t stop = o[4] & 3; while (x.v > stop) EQ(c.dec(), --x.v, "dec()"); break; }
        default: x.fresh(); break;
        }
        if (x.v > 65535) big = true;
        if (x.v == 0) zero = true;
        for (auto& y : h) { const RC& yc = *y.c; EQ(yc.count(), y.v, "count()"); }
    }
}
void gen(eng::Rng& r, const std::string&, uint64_t, eng::bytes& out) {
    int n = int(r.range(4, 40));
    bool small = r.chance(9, 10);
    for (int i = 0; i < n; ++i) {
        uint8_t op[8];
        for (auto& b : op) b = r.byte();
        op[0] = uint8_t(r.chance(1, 2) ? r.below(4) : r.below(NOPS));
        if (small) op[3] = 0;
        op[1] = r.chance(4, 5) ? 0 : 1;
        if (r.below(64)) op[4] |= 1; // the longest runs are rare
        out.insert(out.end(), op, op + 8);
    }
}
void run(const std::string&, const uint8_t* d, size_t n) {
    big = zero = after_zero = far_away = false;
    play<xmem::atomic_ref_count>("xmem::atomic_ref_count", d, n);
    play<xmem::local_ref_count>("xmem::local_ref_count", d, n);
    if (zero || big) eng::nontrivial();
    if (big) eng::label("beyond 16 bits");
    if (far_away) eng::label("set to a value far away");
    if (zero) eng::label("reached zero");
    if (after_zero) eng::label("inc_nz at zero");
    eng::count("operations", n / 8);
}
std::string describe(const std::string&, const uint8_t* d, size_t n) {
    std::string s;
    for (size_t i = 0; i + 8 <= n; i += 8) appendf(s, "%s%s[%d] %d %d", i ? "; " : "", names[d[i] % NOPS], d[i + 1] & 1, 1 + (d[i + 2] | d[i + 3] << 8), d[i + 4] & 3);
    return s;
}
} // namespace
const Topic topic_count{8, gen, run, describe};
