// histories of unique pointers against the reference model (C10, C11) and against std (C20)
#include "uniq.hpp"
#include "policy_ref.hpp"
using namespace uq;
void uniq_xmem(const uint8_t*, size_t, Ctx&, Options);
void wide_uniq(uint64_t);
void uniq_local(const uint8_t*, size_t, Ctx&, Options);
#ifndef UNIQ_NO_STD
void uniq_std(const uint8_t*, size_t, Ctx&, Options);
#else
static void uniq_std(const uint8_t*, size_t, Ctx&, Options) { abort(); }
#endif

namespace {
void gen(eng::Rng& r, const std::string& id, uint64_t, eng::bytes& out) {
    bool c11 = id == "C11";
    int n = int(r.chance(1, 3) ? r.range(3, 10) : r.range(6, 40));
    static const struct { uint8_t op; int w10, w11; } w[] = {{NEW, 12, 10}, {MOVE, 10, 8}, {CONV, 12, 5}, {SWAP, 7, 4}, {RESET, 8, 12}, {RELEASE, 4, 2}, {HAND, 5, 2}, {SETDEL, 3, 1}, {ACCESS, 4, 2}, {DESTROY, 4, 12}, {LINK, 4, 10}, {POP, 3, 10}, {LAMBDA, 2, 1}, {ARRAY, 3, 1}, {LOCAL, 2, 4}, {PIMPL, 1, 3}};
    int total = 0;
    for (auto& x : w) total += c11 ? x.w11 : x.w10;
    int fav = r.chance(1, 2) ? int(r.below(16)) : -1;
    int head = int(r.range(1, 4));
    for (int i = 0; i < n; ++i) {
        uint8_t op[OPSZ];
        for (auto& b : op) b = r.byte();
        if (i < head) op[0] = NEW;
        else { int x = int(r.below(uint32_t(total))); for (auto& e : w) { x -= c11 ? e.w11 : e.w10; if (x < 0) { op[0] = e.op; break; } } }
        if (op[0] != CONV && fav >= 0 && r.chance(1, 2)) op[1] = uint8_t(fav);
        if (c11 && op[0] != CONV && r.chance(1, 2)) op[1] = 0;
        if (c11 && (op[0] == NEW || op[0] == LINK || op[0] == LOCAL) && r.chance(3, 4)) op[4] = r.chance(1, 2) ? uint8_t(1 | (r.below(2) << 1)) : uint8_t(op[4] | 1);
        if (!c11 && r.chance(2, 3)) { if (op[0] == NEW) op[4] &= 0xFE; }
        out.insert(out.end(), op, op + OPSZ);
    }
}
std::string describe(const std::string&, const uint8_t* d, size_t n) {
    std::string s;
    for (size_t i = 0; i + OPSZ <= n; i += OPSZ) {
        char t[80];
        const uint8_t* o = d + i;
        snprintf(t, sizeof(t), "%s%zu:%s(%02x,%02x,%02x,%02x,%02x,%02x,%02x)", i ? "; " : "", i / OPSZ + 1, op_name(uint8_t(o[0] % NOPS)), o[1], o[2], o[3], o[4], o[5], o[6], o[7]);
        s += t;
    }
    return s;
}
void show(const char* who, const Ctx& c, size_t upto) {
    fprintf(stderr, "--- %s\n", who);
    uint32_t op = 0;
    for (size_t i = 0; i < c.log.size() && i <= upto; ++i) {
        auto& e = c.log[i];
        if (e.op != op) { op = e.op; fprintf(stderr, "\n operation %u:", op); }
        if ((e.what != T_PTR && e.what != T_BOOL && e.what != T_DELID && e.what != T_REFID && e.what != T_USE) || i + 12 > upto)
            fprintf(stderr, " [%s=%llx]", tag_name(e.what), static_cast<unsigned long long>(e.val));
    }
    fprintf(stderr, "\n");
}
void compare(const char* sut, const char* model, const Ctx& a, const Ctx& b) {
    size_t n = a.log.size() < b.log.size() ? a.log.size() : b.log.size();
    for (size_t i = 0; i < n; ++i) {
        auto& x = a.log[i]; auto& y = b.log[i];
        if (x.op == y.op && x.what == y.what && x.val == y.val) continue;
        if (eng::verbose()) { show(sut, a, i); show(model, b, i); }
        if (x.op == y.op && x.what == y.what)
            eng::fail("%s: at operation %u: %s is 0x%llx, expected 0x%llx", sut, x.op, tag_name(x.what), static_cast<unsigned long long>(x.val), static_cast<unsigned long long>(y.val));
        eng::fail("%s: at operation %u: %s (0x%llx) happened, expected: %s (0x%llx) at operation %u", sut, x.op, tag_name(x.what), static_cast<unsigned long long>(x.val), tag_name(y.what), static_cast<unsigned long long>(y.val), y.op);
    }
    if (a.log.size() != b.log.size()) eng::fail("%s: the history ends differently", sut);
}
void run(const std::string& id, const uint8_t* d, size_t n) {
    static Ctx model, c;
    auto clear = [](Ctx& x) { auto l = std::move(x.log); l.clear(); x = Ctx{}; x.log = std::move(l); };
    Options o;
    if (id == "C20") { o.std_common = true; o.reentrant = false; }
    clear(model);
    if (id == "C20") uniq_std(d, n, model, o); else run_program<RefP>(d, n, model, o);
    struct { const char* name; void (*f)(const uint8_t*, size_t, Ctx&, Options); } suts[] = {{"xmem::unique_ptr", uniq_xmem}, {"xmem::unique_ptr (local shared)", uniq_local}};
    for (auto& s : suts) {
        clear(c);
        s.f(d, n, c, o);
        compare(s.name, id == "C20" ? "std" : "model", c, model);
    }
    if (id == "C10") wide_uniq(eng::fnv(d, n));
    bool nt;
    if (id == "C11") nt = c.c_reent || c.c_pop;
    else nt = c.n_objects >= 2 && (c.c_conv || c.c_swap || c.c_hand || c.c_release || c.c_array);
    if (nt) eng::nontrivial();
    eng::count("operations", c.n_ops);
    eng::count("objects", c.n_objects);
    if (c.c_conv) eng::label("conversions between pointers with different deleters or types");
    if (c.c_swap) eng::label("swaps");
    if (c.c_hand) eng::label("handed over to a shared pointer");
    if (c.c_release) eng::label("releases");
    if (c.c_reent) eng::label("destructor acts on the pointers");
    if (c.c_own_read) eng::label("destructor reads the pointer which holds it");
    if (c.c_own_array_read) eng::label("array element reads the pointer which holds its array");
    if (c.c_pop) eng::label("pointer advanced into its own object");
    if (c.c_self) eng::label("self moves");
    if (c.c_refdel) eng::label("deleter by reference");
    if (c.c_array) eng::label("arrays");
    if (c.c_moveonly) eng::label("move only deleters");
    if (c.c_pimpl) eng::label("pointers to incomplete types");
}
} // namespace
const eng::Harness eng::harness{OPSZ, 0, gen, run, describe, 20};
