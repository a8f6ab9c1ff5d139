// a user-supplied control block which keeps the addresses of the pointers it is told about
#pragma once
#include "policy_xmem.hpp"
#include "engine.hpp"
#include <xmem/local_ref_count.hpp>
#include <xmem/common_control_block.hpp>

struct TrackingBlock;
inline TrackingBlock* g_blocks = nullptr;      // list of living control blocks
inline bool g_cb_throw = false;
struct Boom;
[[noreturn]] void throw_boom();

struct TrackingBlock : protected xmem::control_block_base<xmem::local_ref_count> {
    using super = xmem::control_block_base<xmem::local_ref_count>;
    eng::hvec<const void*> strong, weak;
    TrackingBlock *next, *prev = nullptr;
    uint32_t magic = 0x7AC4;
    bool dead = false;

    TrackingBlock() {
        if (g_cb_throw) { g_cb_throw = false; throw_boom(); }
        next = g_blocks;
        if (next) next->prev = this;
        g_blocks = this;
    }
    ~TrackingBlock() {
        if (magic != 0x7AC4) eng::fail("a control block is destroyed twice");
        if (!strong.empty()) eng::fail("a control block is destroyed while %zu shared pointers are reported to it", strong.size());
        if (!weak.empty()) eng::fail("a control block is destroyed while %zu weak pointers are reported to it", weak.size());
        magic = 0;
        if (prev) prev->next = next; else g_blocks = next;
        if (next) next->prev = prev;
    }
    static size_t find(const eng::hvec<const void*>& v, const void* p) { for (size_t i = v.size(); i-- > 0;) if (v[i] == p) return i; return size_t(-1); }
    void add(eng::hvec<const void*>& v, const void* p, const char* what) {
        if (magic != 0x7AC4) eng::fail("%s: notification to a destroyed control block", what);
        if (!p) eng::fail("%s: notification without address", what);
        if (find(v, p) != size_t(-1)) eng::fail("%s: the address is reported as added twice", what);
        v.push_back(p);
    }
    void del(eng::hvec<const void*>& v, const void* p, const char* what) {
        if (magic != 0x7AC4) eng::fail("%s: notification to a destroyed control block", what);
        size_t i = find(v, p);
        if (i == size_t(-1)) eng::fail("%s: the address was not reported as added", what);
        v[i] = v.back();
        v.pop_back();
    }
    void init_strong(const void* s) noexcept { super::init_strong(s); add(strong, s, "init_strong"); }
    void inc_strong_ref(const void* s) noexcept { super::inc_strong_ref(s); add(strong, s, "inc_strong_ref"); }
    void dec_strong_ref(const void* s) noexcept { del(strong, s, "dec_strong_ref"); super::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept { if (!super::inc_strong_ref_nz(s)) return false; add(strong, s, "inc_strong_ref_nz"); return true; }
    using super::strong_ref_count;
    void transfer_strong(const void* d, const void* s) { super::transfer_strong(d, s); del(strong, s, "transfer_strong"); add(strong, d, "transfer_strong"); }
    void inc_weak_ref(const void* s) noexcept { super::inc_weak_ref(s); add(weak, s, "inc_weak_ref"); }
    void dec_weak_ref(const void* s) noexcept {
        // the weak ref which all shared pointers have together is dropped in the name of the last of them, by the base
        del(weak, s, "dec_weak_ref");
        super::dec_weak_ref(s);
    }
    void transfer_weak(const void* d, const void* s) { super::transfer_weak(d, s); del(weak, s, "transfer_weak"); add(weak, d, "transfer_weak"); }
};

struct XmemTracked : XmemBase<xmem::control_block_factory<TrackingBlock>> {
    static constexpr const char* name = "xmem with a tracking control block";
    static constexpr bool tracked = true;
    static constexpr bool cb_can_throw_policy = true;
    // arm: true. Disarm: returns whether it was still armed
    static bool arm_cb(bool on) { bool old = g_cb_throw; g_cb_throw = on; return old; }

    template <typename W> static void check_tracking(W& w) {
        struct Ref { const void* cb; const void* addr; bool is_weak; };
        static eng::hvec<Ref> refs;
        refs.clear();
        auto st = [&](const auto& s) { if (s.owner()) refs.push_back({s.owner(), &s, false}); };
        auto wk = [&](const auto& s) { if (s.owner()) refs.push_back({s.owner(), &s, true}); };
        w.all_strong(st);
        w.all_weak(wk);
        for (auto& r : w.reg) if (r.alive) { st(r.o->l[0]); st(r.o->l[1]); wk(r.o->w); }
        for (TrackingBlock* b = g_blocks; b; b = b->next) {
            size_t ns = 0, nw = 0;
            for (auto& r : refs) {
                if (r.cb != static_cast<const void*>(b)) continue;
                auto& v = r.is_weak ? b->weak : b->strong;
                if (TrackingBlock::find(v, r.addr) == size_t(-1)) eng::fail("a living %s pointer is not among the reported ones", r.is_weak ? "weak" : "shared");
                ++(r.is_weak ? nw : ns);
            }
            // the storage is a shared pointer too, which nobody but it can name
            size_t in_storage = 0;
            for (auto p : b->strong) {
                auto c = static_cast<const char*>(p);
                if (c >= reinterpret_cast<const char*>(&w.sto->st) && c < reinterpret_cast<const char*>(&w.sto->st + 1)) ++in_storage;
            }
            if (in_storage > 1) eng::fail("a storage reports itself more than once");
            bool holds = w.sto->st.load().owner() == static_cast<const void*>(b);
            if (holds != (in_storage == 1)) eng::fail("the pointer in a storage is not among the reported ones, or left there after it was taken out");
            if (b->strong.size() != ns + in_storage) eng::fail("%zu shared pointers are reported, %zu exist", b->strong.size(), ns + in_storage);
            // objects which hand out owners of themselves may hold a weak pointer of their own
            size_t inside = 0;
            for (auto p : b->weak) {
                bool known = false;
                for (auto& r : refs) if (r.is_weak && r.addr == p) known = true;
                if (known) continue;
                for (auto& r : w.reg) {
                    auto c = static_cast<const char*>(p);
                    if (r.alive && (r.esf_raw || r.esft_raw) && c >= r.lo && c < r.hi) known = true;
                }
                if (!known) eng::fail("a weak pointer is reported which does not exist");
                ++inside;
            }
            if (b->weak.size() != nw + inside) eng::fail("%zu weak pointers are reported, %zu exist", b->weak.size(), nw + inside);
        }
    }
};
