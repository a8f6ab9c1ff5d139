// histories of pointer operations against the reference model: C01-C08, C17, C19, C20, C21
#include "world.hpp"
#include "policy_ref.hpp"

using RunFn = void (*)(const uint8_t*, size_t, RunCtx&, Options);
#ifndef HIST_POLICIES
#define HIST_POLICIES 15
#endif
void run_ref(const uint8_t*, size_t, RunCtx&, Options);
void run_atomic(const uint8_t*, size_t, RunCtx&, Options);
void wide_atomic(uint64_t);
void wide_local(uint64_t);
void run_local(const uint8_t*, size_t, RunCtx&, Options);
void run_tracked(const uint8_t*, size_t, RunCtx&, Options);
void run_std(const uint8_t*, size_t, RunCtx&, Options);

namespace {

struct Sut { const char* name; RunFn fn; };
struct Prop {
    const char* id;
    int minlen, maxlen;
    uint8_t act_chance;          // of 100: objects act in their destructor
    Options opt;
    std::vector<Sut> suts;
    bool std_is_model;
    std::vector<std::pair<uint8_t, int>> w;
    bool (*nontrivial)(const RunCtx&);
};

#if HIST_POLICIES & 3
const Sut ATOMIC{"xmem::shared_ptr", run_atomic}, LOCAL{"xmem::local_shared_ptr", run_local};
#endif
#if HIST_POLICIES & 4
const Sut TRACKED{"tracking control block", run_tracked};
#endif
#if HIST_POLICIES & 8
const Sut STD{"std::shared_ptr with xstd", run_std};
#endif

std::vector<std::pair<uint8_t, int>> mix(std::vector<std::pair<uint8_t, int>> over, int base = 2) {
    std::vector<std::pair<uint8_t, int>> w;
    for (int i = 0; i < NOPS; ++i) {
        int k = base;
        if (i == MASS) k = 0;
        if (i == NULLOP) k = base / 2;
        for (auto& o : over) if (o.first == i) k = o.second;
        w.push_back({uint8_t(i), k});
    }
    return w;
}

const std::vector<Prop>& props() {
    static const std::vector<Prop> v = [] {
        std::vector<Prop> p;
        Options plain, none, faults, noalloc, stdc, stdr;
        none.reentrant = false;
        faults.faults = true; faults.reentrant = false;
        noalloc.noalloc = true;
        stdc.std_common = true; stdc.reentrant = false;
        stdr.std_common = true;
#if HIST_POLICIES & 3
        p.push_back({"C01", 6, 40, 20, plain, {ATOMIC, LOCAL}, false,
            mix({{MAKE, 14}, {COPY, 8}, {MOVE, 8}, {RESET, 8}, {SWAP, 4}, {UNIQ, 5}, {ARR, 5}, {NVOP, 4}, {VOIDOP, 3}, {ALIAS, 4}, {LINK, 5}, {MASS, 1}, {STORE, 3}, {EXCH, 3}, {CAS, 3}, {NULLOP, 2}}, 1),
            [](const RunCtx& c) { return c.n_objects >= 2 && (c.c_deleter || c.c_uniq || c.c_array || c.c_alias || c.c_mass || c.c_storage); }});
        p.push_back({"C02", 6, 40, 0, none, {ATOMIC, LOCAL}, false,
            mix({{MAKE, 8}, {COPY, 12}, {MOVE, 12}, {SWAP, 8}, {RESET, 5}, {SELF, 4}, {CMP, 6}, {TEMP, 6}, {ALIAS, 5}, {CAST, 4}, {MASS, 1}, {LOCK, 3}}, 1),
            [](const RunCtx& c) { return c.c_conv || c.c_swap || c.c_selfop || c.c_moved; }});
        p.push_back({"C03", 6, 45, 10, plain, {ATOMIC, LOCAL}, false,
            mix({{MAKE, 6}, {WFROM, 16}, {WCOPY, 9}, {WMOVE, 8}, {WSWAP, 4}, {WRESET, 1}, {WALIAS, 5}, {LOCK, 16}, {RESET, 9}, {COPY, 4}, {MOVE, 4}, {WLINK, 3}, {CMP, 3}, {MASS, 1}, {SELF, 2}}, 1),
            [](const RunCtx& c) { return c.c_weak_expired || c.c_lock_ok; }});
        p.push_back({"C04", 6, 40, 60, plain, {ATOMIC, LOCAL}, false,
            mix({{MAKE, 10}, {LINK, 14}, {ADVANCE, 14}, {COPY, 7}, {MOVE, 7}, {RESET, 8}, {UNIQ, 4}, {SWAP, 3}, {LOCK, 3}, {WFROM, 3}}, 1),
            [](const RunCtx& c) { return c.c_reentrant || c.c_advance || c.c_released_by_place; }});
        p.push_back({"C05", 6, 35, 0, none, {ATOMIC, LOCAL}, false,
            mix({{MASS, 1}, {MAKE, 10}, {ALIAS, 12}, {CAST, 16}, {WALIAS, 8}, {COPY, 5}, {MOVE, 5}, {RESET, 4}, {LOCK, 4}, {WFROM, 4}, {CMP, 3}}, 1),
            [](const RunCtx& c) { return c.c_alias || c.c_cast; }});
        p.push_back({"C06", 6, 35, 10, plain, {ATOMIC, LOCAL}, false,
            mix({{MASS, 1}, {MAKE, 10}, {ESF, 22}, {ESFRAW, 12}, {COPY, 4}, {MOVE, 4}, {RESET, 6}, {LOCK, 4}, {NULLOP, 3}, {UNIQ, 2}, {CAST, 2}}, 1),
            [](const RunCtx& c) { return c.c_esf; }});
        p.push_back({"C08", 6, 30, 0, faults, {ATOMIC,
#if HIST_POLICIES & 4
            TRACKED
#else
            LOCAL
#endif
            }, false,
            mix({{MAKE, 30}, {UNIQ, 10}, {ARR, 8}, {NVOP, 6}, {VOIDOP, 4}, {ADVANCE, 3}, {LINK, 3}, {COPY, 4}, {MOVE, 3}, {RESET, 3}, {NULLOP, 3}}, 1),
            [](const RunCtx& c) { return c.c_fault || c.c_ctor_throw || c.c_cb_throw; }});
        p.push_back({"C19", 8, 45, 10, noalloc, {ATOMIC, LOCAL}, false,
            mix({{MAKE, 8}, {COPY, 6}, {MOVE, 6}, {SWAP, 4}, {RESET, 4}, {LOCK, 5}, {ALIAS, 4}, {CAST, 5}, {ESF, 5}, {STORE, 4}, {EXCH, 4}, {CAS, 4}, {LOADOP, 3}, {TEMP, 0}}, 2),
            [](const RunCtx& c) { return c.c_noalloc && c.n_objects > 0; }});
#endif
#if HIST_POLICIES & 4
        p.push_back({"C07", 6, 40, 15, plain, {TRACKED}, false,
            mix({{MAKE, 9}, {COPY, 7}, {MOVE, 8}, {SWAP, 6}, {RESET, 4}, {WFROM, 5}, {WCOPY, 5}, {WMOVE, 6}, {WSWAP, 5}, {WRESET, 2}, {LOCK, 5}, {ESF, 5}, {SELF, 4}, {TEMP, 4}, {ALIAS, 4}, {STORE, 3}, {EXCH, 3}, {CAS, 3}}, 2),
            [](const RunCtx& c) { return c.c_moved || c.c_swap || c.c_lock_ok || c.c_esf; }});
#endif
#if HIST_POLICIES & 8
        p.push_back({"C17", 6, 40, 20, stdr, {STD}, false,
            mix({{MAKE, 9}, {ESF, 9}, {ESFRAW, 5}, {ALIAS, 9}, {CMP, 9}, {STORE, 5}, {EXCH, 5}, {CAS, 7}, {LOADOP, 4}, {RESET, 5}, {WFROM, 5}, {SOBS, 3}, {MASS, 1}, {NULLOP, 0}, {WALIAS, 0}}, 1),
            [](const RunCtx& c) { return c.c_esf || c.c_alias || c.c_storage; }});
#if HIST_POLICIES & 3
        p.push_back({"C20", 6, 45, 0, stdc, {ATOMIC, LOCAL}, true,
            mix({{MAKE, 9}, {COPY, 6}, {MOVE, 6}, {SWAP, 4}, {RESET, 5}, {CAST, 5}, {ARR, 3}, {NVOP, 3}, {VOIDOP, 3}, {UNIQ, 4}, {ESF, 4}, {LOCK, 4}, {MASS, 1}, {NULLOP, 0}, {WALIAS, 0}}, 2),
            [](const RunCtx& c) { return c.n_objects >= 2 && c.n_ops >= 6; }});
#endif
        p.push_back({"C21", 6, 36, 75, stdr, {
#if HIST_POLICIES & 3
            ATOMIC, LOCAL,
#endif
            STD}, false,
            mix({{MAKE, 14}, {STORE, 10}, {EXCH, 10}, {CAS, 14}, {LOADOP, 3}, {LINK, 4}, {RESET, 4}, {COPY, 3}, {MOVE, 4}, {SOBS, 2}, {MASS, 1}, {NULLOP, 0}, {WALIAS, 0}}, 1),
            [](const RunCtx& c) { return c.c_reent_storage; }});
#endif
        for (auto& x : p) { // the base class of std gives its own address as void
            bool with_std = x.std_is_model;
            for (auto& s : x.suts) with_std |= s.fn != nullptr && (std::strncmp(s.name, "std", 3) == 0);
            x.opt.parts = !with_std;
        }
        return p;
    }();
    return v;
}
const Prop& get(const std::string& id) {
    for (auto& p : props()) if (id == p.id) return p;
    fprintf(stderr, "unknown property %s\n", id.c_str());
    exit(3);
}

void gen(eng::Rng& r, const std::string& id, uint64_t, eng::bytes& out) {
    auto& p = get(id);
    int total = 0;
    for (auto& w : p.w) total += w.second;
    // mostly short cases, some long
    int n = int(r.range(uint32_t(p.minlen), uint32_t(p.maxlen)));
    if (r.chance(1, 3)) n = int(r.range(uint32_t(p.minlen), uint32_t(p.minlen + 8)));
    int head = int(r.range(1, 4));
    // a case favours some kind of object and some operations
    uint8_t favour = r.byte();
    int fav_op = -1;
    if (r.chance(1, 2)) { fav_op = int(p.w[r.below(uint32_t(p.w.size()))].first); if (fav_op == MASS) fav_op = -1; for (auto& w : p.w) if (w.first == fav_op && !w.second) fav_op = -1; }
    bool fav_kind = r.chance(1, 3);
    bool links = r.chance(2, 3);
    for (int i = 0; i < n; ++i) {
        uint8_t op[OPSZ];
        for (auto& b : op) b = r.byte();
        if (i < head) op[0] = MAKE;
        else if (id == "C03" && i < head + 3) { op[0] = WFROM; op[7] |= 1; if (i < head + 2) op[4] = 0; }
        else if (fav_op >= 0 && r.chance(1, 4)) op[0] = uint8_t(fav_op);
        else {
            int x = int(r.below(uint32_t(total)));
            for (auto& w : p.w) { x -= w.second; if (x < 0) { op[0] = w.first; break; } }
        }
        if (!links) { op[1] &= 0xF3; op[2] &= 0xF3; }
        if (op[0] == MAKE || op[0] == UNIQ || op[0] == LINK) {
            if (id == "C06" && op[0] == MAKE && r.chance(2, 3)) op[4] = uint8_t((op[4] & 0x0F) | (r.chance(3, 5) ? 0xC0 : 0xE0));
            else if (op[0] == MAKE && fav_kind) op[4] = uint8_t((op[4] & 0x0F) | (favour & 0xF0));
            if (p.act_chance && r.below(100) < p.act_chance) op[4] = uint8_t((op[4] & ~3) | 1);
            else if ((op[4] & 3) == 1) op[4] ^= 1;
            if (id == "C21" && r.chance(3, 4)) { static const uint8_t a[] = {6, 7, 13, 14}; op[5] = uint8_t(a[r.below(4)] - 1); }
        }
        // types: most operations on pointers to Obj, where everything meets
        if ((op[0] == COPY || op[0] == MOVE || op[0] == SWAP || op[0] == RESET || op[0] == SELF || op[0] == WFROM || op[0] == LOCK) && r.chance(1, 3)) op[3] = 0;
        if ((op[0] == COPY || op[0] == MOVE || op[0] == WFROM) && r.chance(1, 3)) op[4] = 0;
        out.insert(out.end(), op, op + OPSZ);
    }
}

std::string describe(const std::string&, const uint8_t* d, size_t n) {
    std::string s;
    for (size_t i = 0; i + OPSZ <= n; i += OPSZ) {
        char t[80];
        const uint8_t* o = d + i;
        snprintf(t, sizeof(t), "%s%zu:%s(%02x,%02x,%02x,%02x,%02x,%02x,%02x)", i ? "; " : "", i / OPSZ + 1, op_name(uint8_t(o[0] % NOPS)), o[1], o[2], o[3], o[4], o[5], o[6], o[7]);
        s += t;
    }
    return s;
}

void show(const char* who, const RunCtx& c, size_t upto) {
    fprintf(stderr, "--- %s\n", who);
    uint32_t op = 0;
    for (size_t i = 0; i < c.log.size() && i <= upto; ++i) {
        auto& e = c.log[i];
        if (e.op != op) { op = e.op; fprintf(stderr, "\n operation %u:", op); }
        if (e.what == T_CTOR || e.what == T_DTOR || e.what == T_DEL || e.what == T_REENT || e.what == T_THREW || i + 12 > upto)
            fprintf(stderr, " [%s=%llx]", tag_name(e.what), static_cast<unsigned long long>(e.val));
    }
    fprintf(stderr, "\n");
}

void compare(const char* sut, const char* model, const RunCtx& a, const RunCtx& b) {
    size_t n = a.log.size() < b.log.size() ? a.log.size() : b.log.size();
    for (size_t i = 0; i < n; ++i) {
        auto& x = a.log[i]; auto& y = b.log[i];
        if (x.op == y.op && x.what == y.what && x.val == y.val) continue;
        if (eng::verbose()) { show(sut, a, i); show(model, b, i); }
        if (x.op == y.op && x.what == y.what)
            eng::fail("%s: after operation %u: %s is 0x%llx, expected 0x%llx", sut, x.op, tag_name(x.what), static_cast<unsigned long long>(x.val), static_cast<unsigned long long>(y.val));
        eng::fail("%s: at operation %u: %s (0x%llx) happened, expected: %s (0x%llx) at operation %u", sut, x.op, tag_name(x.what), static_cast<unsigned long long>(x.val), tag_name(y.what), static_cast<unsigned long long>(y.val), y.op);
    }
    if (a.log.size() != b.log.size()) eng::fail("%s: the history ends differently", sut);
}

void run(const std::string& id, const uint8_t* d, size_t n) {
    auto& p = get(id);
    static RunCtx model, c;
    auto clear = [](RunCtx& x) { auto l = std::move(x.log); auto t = std::move(x.threw); l.clear(); t.clear(); x = RunCtx{}; x.log = std::move(l); x.threw = std::move(t); };
    bool have_model = false;
    if (p.std_is_model) {
#if HIST_POLICIES & 8
        clear(model);
        run_std(d, n, model, p.opt);
        have_model = true;
#endif
    }
    for (auto& s : p.suts) {
        clear(c);
        s.fn(d, n, c, p.opt);
        if (!have_model || (p.opt.faults && !p.std_is_model)) {
            clear(model);
            model.replay_threw = &c.threw;
            ref::Owner::live_records = 0;
            run_ref(d, n, model, p.opt);
            have_model = true;
        }
        compare(s.name, p.std_is_model ? "std" : "model", c, model);
    }
#if HIST_POLICIES & 3
    if (id == "C02") { uint64_t h = eng::fnv(d, n); wide_atomic(h); wide_local(h); }
#endif
    if (p.nontrivial(c)) eng::nontrivial();
    eng::count("operations", c.n_ops);
    eng::count("objects", c.n_objects);
    if (c.c_reentrant) eng::label("destructor acts on pointers");
    if (c.c_alias) eng::label("aliases");
    if (c.c_cast) eng::label("casts");
    if (c.c_conv) eng::label("converting copies or moves");
    if (c.c_weak_expired) eng::label("expired weak pointers");
    if (c.c_lock_ok) eng::label("successful lock");
    if (c.c_lock_null) eng::label("lock of expired");
    if (c.c_advance) eng::label("pointer advanced into its own object");
    if (c.c_cycle) eng::label("cycles");
    if (c.c_esf) eng::label("object hands out owners");
    if (c.c_esf_unowned) eng::label("unowned object asked for owners");
    if (c.c_fault) eng::label("allocation failed");
    if (c.c_ctor_throw) eng::label("object constructor threw");
    if (c.c_cb_throw) eng::label("control block constructor threw");
    if (c.c_storage) eng::label("storage operations");
    if (c.c_mass) eng::label("more than 250 pointers to an object");
    if (c.c_same_address) eng::label("adopted through a pointer which pointed there already");
    if (c.c_virt) eng::label("expired weak pointer converted to virtual base");
    if (c.c_uniq) eng::label("unique pointers");
    if (c.c_array) eng::label("arrays");
    if (c.c_deleter) eng::label("custom deleters");
    if (c.c_reent_storage) eng::label("destructor uses the storage");
    if (c.c_swap) eng::label("swaps");
    if (c.c_selfop) eng::label("self operations");
    if (c.c_released_by_place) eng::label("release through a pointer inside an object");
    if (c.c_noalloc) eng::label("no memory available");
    if (c.c_null_owner) eng::label("owner of null");
}
} // namespace

const eng::Harness eng::harness{OPSZ, 0, gen, run, describe, 20};
