// short histories over many sorts of types, with a simple model
#include "types.hpp"
void types_atomic1(int, const uint8_t*, size_t);
void types_atomic2(int, const uint8_t*, size_t);
void types_local1(int, const uint8_t*, size_t);
void types_local2(int, const uint8_t*, size_t);

namespace ty {
Ctx ctx;
eng::hvec<Addr> living;
eng::hvec<Owner> owners;
static const char* const names[] = {"new", "copy", "move", "reset", "swap", "weak", "weak copy", "weak move", "weak reset", "weak swap", "lock", "alias", "cast", "shared from this", "store", "exchange", "compare_exchange", "unique", "handover", "temporaries", "new array", "array", "many"};
const char* op_name(uint8_t o) { return names[o % NOPS]; }
void born(Addr p) {
    for (auto a : living) if (a == p) eng::fail("an object is made where one is alive");
    living.push_back(p);
}
void died(Addr p) {
    for (auto& a : living) if (a == p) { a = living.back(); living.pop_back(); return; }
    eng::fail("an object is destroyed which is not alive");
}
void deleted(Addr p) {
    if (!p) eng::fail("a deleter is called with null");
    if (ctx.failing && p == ctx.made) { ++ctx.lost; return; }
    for (size_t i = owners.size(); i--;) if (owners[i].obj == p) {
        if (!owners[i].custom) eng::fail("the deleter of another object is called");
        if (++owners[i].deletes > 1) eng::fail("a deleter is called twice");
        return;
    }
    eng::fail("a deleter is called with an unknown address");
}
void expect_mem(int tag, bool alive) {
    auto n = track::live_with_tag(tag);
    if (alive && !n) eng::fail("memory is released of an object which is alive");
    if (!alive && n) eng::fail("memory is not released of an object without pointers");
}
} // namespace ty
using namespace ty;

namespace {
void gen(eng::Rng& r, const std::string& id, uint64_t, eng::bytes& out) {
    bool e = id == "C06";
    static const uint8_t esfs[] = {10, 11, 12, 25};
    out.push_back(e ? esfs[r.below(4)] : uint8_t(r.below(NTYPE)));
    for (int i = 1; i < HEAD; ++i) out.push_back(r.byte());
    static const int w[NOPS] = {14, 12, 9, 5, 4, 8, 6, 5, 2, 2, 8, 5, 6, 4, 4, 3, 4, 6, 5, 2, 4, 9, 1};
    int total = 0;
    auto weight = [&](int k) {
        int x = w[k];
        if (id == "C03" && k >= WEAK && k <= LOCK) x *= 3;
        if (id == "C02" && (k == COPY || k == MOVE || k == SWAP)) x *= 3;
        if (id == "C05" && (k == ALIAS || k == CAST)) x *= 4;
        if (e && k == ESF) x *= 6;
        if (id == "C08" && (k == NEW || k == ARRNEW || k == HANDOVER || k == UNIQ)) x *= 4;
        if (id == "C10" && (k == UNIQ || k == HANDOVER)) x *= 6;
        return x;
    };
    for (int k = 0; k < NOPS; ++k) total += weight(k);
    int n = int(r.chance(1, 3) ? r.range(2, 8) : r.range(5, 25));
    int head = int(r.range(1, 3));
    for (int i = 0; i < n; ++i) {
        uint8_t op[OP];
        for (auto& b : op) b = r.byte();
        if (i < head) op[0] = r.chance(1, 5) ? UNIQ : NEW;
        else { int x = int(r.below(uint32_t(total))); for (int k = 0; k < NOPS; ++k) { x -= weight(k); if (x < 0) { op[0] = uint8_t(k); break; } } }
        out.insert(out.end(), op, op + OP);
    }
}
std::string describe(const std::string&, const uint8_t* d, size_t n) {
    std::string s = "type " + std::to_string(n ? d[0] % NTYPE : 0) + ": ";
    for (size_t i = HEAD; i + OP <= n; i += OP) {
        char t[80];
        const uint8_t* o = d + i;
        snprintf(t, sizeof(t), "%s%zu:%s(%02x,%02x,%02x,%02x,%02x)", i > HEAD ? "; " : "", (i - HEAD) / OP + 1, op_name(o[0]), o[1], o[2], o[3], o[4], o[5]);
        s += t;
    }
    return s;
}
void run(const std::string& id, const uint8_t* d, size_t n) {
    if (n < HEAD) return;
    int k = d[0] % NTYPE;
    ctx = Ctx{};
    ctx.faults = id == "C08";
    ctx.refuse = id == "C19";
    for (int i = 0; i < 2; ++i) {
        track::reset();
        living.clear();
        owners.clear();
        bool second = k >= 13;
        (i ? second ? types_local2 : types_local1 : second ? types_atomic2 : types_atomic1)(k, d + HEAD, n - HEAD);
    }
    bool nt = ctx.objects >= 8 && (ctx.alias || ctx.cast || ctx.conv || ctx.uniq || ctx.storage);
    if (id == "C02") nt = ctx.conv;
    else if (id == "C03") nt = ctx.weak && ctx.expired;
    else if (id == "C05") nt = ctx.alias || ctx.cast;
    else if (id == "C06") nt = ctx.esf;
    else if (id == "C08") nt = ctx.failed;
    else if (id == "C19") nt = ctx.conv || ctx.alias || ctx.cast || ctx.esf || ctx.storage;
    else if (id == "C10") nt = ctx.uniq;
    if (nt) eng::nontrivial();
    eng::count("operations", (n - HEAD) / OP);
    eng::count("objects", ctx.objects);
    if (ctx.conv) eng::label("conversions");
    if (ctx.weak) eng::label("weak pointers");
    if (ctx.expired) eng::label("expired weak pointers");
    if (ctx.alias) eng::label("aliases");
    if (ctx.cast) eng::label("casts");
    if (ctx.esf) eng::label("objects asked for owners");
    if (ctx.uniq) eng::label("unique pointers");
    if (ctx.many) eng::label("hundreds of objects");
    if (ctx.array) eng::label("arrays");
    if (ctx.failed) eng::label("no memory");
    if (ctx.storage) eng::label("storage");
}
} // namespace
const eng::Harness eng::harness{OP, HEAD, gen, run, describe, 20};
