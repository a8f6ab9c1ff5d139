// Compiled with -fsanitize=thread and linked with sched_rt instead of libtsan.
#include "sched.hpp"
#include <cstdint>
#include <string>
#include <vector>
#include <new>
#include <memory>
#include <utility>
#include <xmem/shared_ptr.hpp>
#include <xmem/basic_weak_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/std_helpers.hpp>

namespace sc {
// No unnamed namespace here: atomic operations switch threads, but to the compiler they are leaf functions, which do not change what only this file can see.
constexpr int NS = 3, NW = 2, MAXO = 48, NPOOL = 2;

// ---- what the harness knows: static, so no access to it takes part in the program ----
struct Fact {
    int definite;            // owners which surely exist now
    uint32_t zero_events;    // times there was none
    bool alive, made, null_seen, adopted;
    uint64_t key;            // identity of the owner
    const void* addr;
    int destroyed;
};
Fact facts[MAXO];
int nfacts;
Result* res;
int nested_of[rt::MAXT][16], nested_n[rt::MAXT];
bool teardown;

void own(int o) { if (o >= 0) ++facts[o].definite; }
void disown(int o) { if (o >= 0 && --facts[o].definite == 0) ++facts[o].zero_events; }
int object_of(uint64_t key) { if (!key) return -1; for (int i = 0; i < nfacts; ++i) if (facts[i].key == key) return i; return -2; }

// ---- a control block of the user which notes the addresses it is told of; the notes are no part of the program either ----
struct Told { const void *cb, *addr; bool weak; };
eng::hvec<Told> told;
const char* kind_name(bool weak) { return weak ? "weak" : "shared"; }
void told_add(const void* cb, const void* p, bool weak, const char* what) {
    if (!p) eng::fail("%s: notification without address", what);
    // (while a pointer gets another owner it may be reported for both)
    for (auto& t : told) if (t.cb == cb && t.addr == p) eng::fail("%s: the address of a %s pointer is reported as added twice", what, kind_name(weak));
    told.push_back({cb, p, weak});
}
void told_del(const void* cb, const void* p, bool weak, const char* what) {
    for (auto& t : told) if (t.cb == cb && t.addr == p && t.weak == weak) { t = told.back(); told.pop_back(); return; }
    eng::fail("%s: the address of a %s pointer was not reported as added", what, kind_name(weak));
}
struct TellBlock : protected xmem::control_block_base<xmem::atomic_ref_count> {
    using super = xmem::control_block_base<xmem::atomic_ref_count>;
    ~TellBlock() { for (auto& t : told) if (t.cb == this) eng::fail("a control block is destroyed while a %s pointer is reported to it", kind_name(t.weak)); }
    void init_strong(const void* s) noexcept { super::init_strong(s); told_add(this, s, false, "init_strong"); }
    void inc_strong_ref(const void* s) noexcept { super::inc_strong_ref(s); told_add(this, s, false, "inc_strong_ref"); }
    void dec_strong_ref(const void* s) noexcept { told_del(this, s, false, "dec_strong_ref"); super::dec_strong_ref(s); }
    bool inc_strong_ref_nz(const void* s) noexcept { if (!super::inc_strong_ref_nz(s)) return false; told_add(this, s, false, "inc_strong_ref_nz"); return true; }
    using super::strong_ref_count;
    void transfer_strong(const void* d, const void* s) { super::transfer_strong(d, s); told_del(this, s, false, "transfer_strong"); told_add(this, d, false, "transfer_strong"); }
    void inc_weak_ref(const void* s) noexcept { super::inc_weak_ref(s); told_add(this, s, true, "inc_weak_ref"); }
    void dec_weak_ref(const void* s) noexcept { told_del(this, s, true, "dec_weak_ref"); super::dec_weak_ref(s); }
    void transfer_weak(const void* d, const void* s) { super::transfer_weak(d, s); told_del(this, s, true, "transfer_weak"); told_add(this, d, true, "transfer_weak"); }
};

template <typename CBF> struct XmemP {
    static constexpr bool tracked = false;
    template <typename T> using sptr = xmem::basic_shared_ptr<CBF, T>;
    template <typename T> using wptr = xmem::basic_weak_ptr<CBF, T>;
    template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
    template <typename T> using esft = xmem::basic_enable_shared_from_this<CBF, T>;
    template <typename T, typename... A> static sptr<T> make(A&&... a) { return sptr<T>(CBF::template make_resource_cb<T>(xmem::allocator<char>{}, std::forward<A>(a)...)); }
    template <typename T> static sptr<T> from_unique(T* p) { return sptr<T>(xmem::unique_ptr<T>(p)); }
    template <typename T> static uint64_t key(const sptr<T>& p) { return uint64_t(reinterpret_cast<uintptr_t>(p.owner())); }
    template <typename T> static uint64_t key(const wptr<T>& p) { return uint64_t(reinterpret_cast<uintptr_t>(p.owner())); }
    template <typename T> static sptr<T> self(T& t) { return t.shared_from_this(); }
    template <typename T> static wptr<T> wself(T& t) { return t.weak_from_this(); }
    template <typename T, typename U> static sptr<T> down(const sptr<U>& p) { return xmem::dynamic_pointer_cast<T>(p); }
    template <typename T, typename U> static sptr<T> alias(const sptr<U>& p, T* t) { return xmem::make_aliased(p, t); }
};
struct XP : XmemP<xmem::atomic_control_block_factory> {
    static constexpr const char* name = "xmem";
    template <typename T, typename... A> static sptr<T> make(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
};
struct TP : XmemP<xmem::control_block_factory<TellBlock>> {
    static constexpr const char* name = "xmem with a tracking control block";
    static constexpr bool tracked = true;
};
struct SP {
    static constexpr const char* name = "std with xstd";
    static constexpr bool tracked = false;
    template <typename T> using sptr = std::shared_ptr<T>;
    template <typename T> using wptr = std::weak_ptr<T>;
    template <typename T> using storage = xstd::atomic_shared_ptr_storage<T>;
    template <typename T> using esft = std::enable_shared_from_this<T>;
    template <typename T, typename... A> static sptr<T> make(A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
    template <typename T> static sptr<T> from_unique(T* p) { return sptr<T>(std::unique_ptr<T>(p)); }
    // the second word of libstdc++'s pointers is the control block
    template <typename T> static uint64_t key(const sptr<T>& p) { uint64_t w[2]; static_assert(sizeof(p) == 16); __builtin_memcpy(w, &p, 16); return w[1]; }
    template <typename T> static uint64_t key(const wptr<T>& p) { uint64_t w[2]; static_assert(sizeof(p) == 16); __builtin_memcpy(w, &p, 16); return w[1]; }
    template <typename T> static sptr<T> self(T& t) { return t.weak_from_this().lock(); }
    template <typename T> static wptr<T> wself(T& t) { return t.weak_from_this(); }
    template <typename T, typename U> static sptr<T> down(const sptr<U>& p) { return std::dynamic_pointer_cast<T>(p); }
    template <typename T, typename U> static sptr<T> alias(const sptr<U>& p, T* t) { return xstd::make_aliased(p, t); }
};

template <typename P> struct World;
template <typename P> struct Cur { static inline World<P>* w = nullptr; };

struct Part { int pv = 77; virtual ~Part() { if (pv != 77) eng::fail("the base part is destroyed twice or was damaged"); pv = -1; } };
struct First { int fv = 66; virtual ~First() { fv = -1; } };
struct Virt { int vv = 55; virtual ~Virt() { vv = -1; } };   // a virtual base: converting to it reads the object
template <typename P> struct Obj : First, Part, virtual Virt, P::template esft<Obj<P>> {
    uint32_t magic = 0x600D600D;
    int id;
    int data[2];
    int pt[rt::MAXT] = {};           // written by the threads, each its own, while they own the object
    uint8_t act[3];                  // what the destructor does with the storages
    Obj(int i, const uint8_t* a) : id(i), data{i * 7, i * 7 + 1}, act{a[0], a[1], a[2]} {}
    void check() const { if (magic != 0x600D600D || data[0] != id * 7 || data[1] != id * 7 + 1) eng::fail("%s: an owned object is not alive", P::name); }
    void finish() {                  // all that is done with the object must be visible to who destroys it
        if (magic != 0x600D600D) eng::fail("%s: object %d is destroyed twice", P::name, id);
        Fact& f = facts[id];
        ++f.destroyed;
        if (f.definite > 0) eng::fail("%s: object %d is destroyed while %d shared pointers own it", P::name, id, f.definite);
        f.alive = false;
        ++res->destroyed;
        int sum = data[0] + data[1];
        for (int i = 0; i < rt::MAXT; ++i) sum += pt[i];
        (void)sum;
        if (P::self(*this)) eng::fail("%s: an object which is being destroyed hands out an owner", P::name);
        auto w = P::wself(*this);
        if (w.lock()) eng::fail("%s: an object which is being destroyed is upgraded to an owner", P::name);
        action();
        look();
        magic = 0xDEADDEAD;
        data[0] = data[1] = -1;
        for (int i = 0; i < rt::MAXT; ++i) pt[i] = -1;
    }
    void action();
    void look();                     // at a pointer of the thread which happens to be the one to destroy it
    ~Obj() { if (magic != 0xB00B) finish(); }
};
template <typename P> struct Del {
    int id; int calls = 0;
    void operator()(Obj<P>* p) { if (p->id != id) eng::fail("%s: the deleter got another object", P::name); if (calls++) eng::fail("%s: the deleter is called twice", P::name); delete p; }
};
template <typename P> struct PoolDel { void operator()(Obj<P>* p) const { p->finish(); } };   // the memory stays

// some programs begin with very many pointers to one object, or after very many operations on a storage; a bit less than where a narrow counter would end
enum { CROWD_FROM = 60, CROWD_BIG = 80 };
constexpr size_t CROWD_HALF = 16 * 66000;
alignas(64) unsigned char crowd_mem[2 * CROWD_HALF];
uint32_t crowd_size(const uint8_t* head) {
    static const uint32_t small[] = {8, 16, 32, 64, 100, 128, 256, 256, 256, 512, 1000}, big[] = {4096, 32768, 65536, 65536};
    int v = head[0] / 3;
    if (v < CROWD_FROM) return 0;
    uint32_t n = v < CROWD_BIG ? small[size_t(v) % 11] : big[size_t(v) % 4];
    return n - head[4] % 8;
}

template <typename P> struct World {
    template <typename T> using S = typename P::template sptr<T>;
    template <typename T> using W = typename P::template wptr<T>;
    using O = Obj<P>;
    struct alignas(64) Th {
        S<O> s[NS]; S<Part> b; S<int> a; W<O> w[NW]; W<Part> wb; W<Virt> wv;
        // what they are: owner; whether the address is of the object owned
    };
    struct ThFact { int s[NS], b, a, w[NW], wb, wv; bool direct[NS], wdirect[NW]; };
    Th th[rt::MAXT];
    typename P::template storage<O> st[2];
    S<O> gs;                         // only read by the threads
    W<O> gw;
    O* pool[NPOOL];
    static inline ThFact f[rt::MAXT];
    static inline int gs_o, gw_o, pool_o[NPOOL], crowd_o;
    static inline uint32_t crowd_s, crowd_w;
    static S<O>* crowd_strong(size_t i) { return reinterpret_cast<S<O>*>(crowd_mem) + i; }
    static W<O>* crowd_weak(size_t i) { return reinterpret_cast<W<O>*>(crowd_mem + CROWD_HALF) + i; }
    void gather(const S<O>& p, int id) {
        uint32_t n = crowd_size(head);
        crowd_s = crowd_w = 0; crowd_o = id;
        if (!n) return;
        if (P::tracked && n > 300) n = 300;
        constexpr size_t biggest = CROWD_HALF / (sizeof(S<O>) > sizeof(W<O>) ? sizeof(S<O>) : sizeof(W<O>));
        if (n > biggest) n = uint32_t(biggest);
        rt::quiet(true);
        switch (head[4] >> 4 & 3) {
        case 0: crowd_s = n; break;
        case 1: crowd_w = n; break;
        case 2: for (uint32_t i = 0; i < n; ++i) touch(st[head[4] >> 6 & 1], int(head[4] >> 7) ? int(i) : head[5]); break;
        default: crowd_s = crowd_w = n; break;
        }
        if (P::tracked) crowd_s = crowd_w = 0;
        for (uint32_t i = 0; i < crowd_s; ++i) new (crowd_strong(i)) S<O>(p);
        for (uint32_t i = 0; i < crowd_w; ++i) new (crowd_weak(i)) W<O>(p);
        rt::quiet(false);
        if (crowd_s) own(id);
        rt::say("%u shared and %u weak pointers more", crowd_s, crowd_w);
        res->crowd = n;
    }
    static void touch(typename P::template storage<O>& x, int how) {
        S<O> e = x.load();
        switch (how & 3) {
        case 0: x.store(std::move(e)); break;
        case 1: { auto o = x.exchange(e); (void)o; break; }
        case 2: if (!x.compare_exchange(e, e)) eng::fail("%s: compare_exchange fails although the value is the expected one", P::name); break;
        default: break;
        }
    }
    void scatter() {
        rt::quiet(true);
        for (uint32_t i = 1; i < crowd_s; ++i) crowd_strong(i)->~S<O>();
        for (uint32_t i = 1; i < crowd_w; ++i) crowd_weak(i)->~W<O>();
        rt::quiet(false);
        if (crowd_s) crowd_strong(0)->~S<O>();
        if (crowd_w) crowd_weak(0)->~W<O>();
    }
    const uint8_t* d; size_t n; int nthreads; const uint8_t* head; bool acts;
    static inline uint8_t next_act[3];

    int new_fact(const uint8_t*) { if (nfacts >= MAXO) return -1; Fact& x = facts[nfacts]; x = Fact{}; x.alive = true; return nfacts++; }
    S<O> make(uint8_t how, const uint8_t* a, int& id) {
        id = new_fact(a);
        if (id < 0) return nullptr;
        uint8_t act[3] = {acts ? a[0] : uint8_t(0), a[1], a[2]};
        S<O> p;
        switch (how % 4) {
        case 0: p = P::template make<O>(id, act); break;
        case 1: p = S<O>(new O(id, act)); break;
        case 2: p = S<O>(new O(id, act), Del<P>{id}); break;
        default: p = P::from_unique(new O(id, act)); break;
        }
        p->pt[rt::tid()] = 1;
        Fact& x = facts[id];
        x.key = P::key(p); x.addr = p.get(); x.made = true;
        own(id);
        return p;
    }
    // a pointer which came from elsewhere: whose is it?
    int check_got(const S<O>& p, const char* from) {
        uint64_t k = P::key(p);
        if (!k) { if (p) eng::fail("%s: a pointer from %s has an address and no owner", P::name, from); return -1; }
        int o = object_of(k);
        if (o == -2) eng::fail("%s: a pointer from %s has an owner which was never stored", P::name, from);
        if (o >= 0 && !facts[o].alive) eng::fail("%s: a pointer from %s owns object %d which was destroyed", P::name, from, o);
        if (o >= 0 && p.get() == facts[o].addr) p->check();
        return o;
    }
    // ---- storage operations, with their history ----
    int ev_begin(uint8_t kind, int st_) {
        SEv e{};
        int t = rt::tid();
        e.kind = kind; e.tid = uint8_t(t); e.st = uint8_t(st_);
        e.parent = nested_n[t] ? nested_of[t][nested_n[t] - 1] : -1;
        if (e.parent >= 0) ++res->nested;
        e.inv = rt::tick();
        e.resp = ~0u;
        int id = int(res->sev.size());
        res->sev.push_back(e);
        if (nested_n[t] >= 16) eng::fail("destructors nest too deep");
        nested_of[t][nested_n[t]++] = id;
        ++res->storage_ops;
        return id;
    }
    SEv& ev_end(int id) { int t = rt::tid(); --nested_n[t]; SEv& e = res->sev[size_t(id)]; e.resp = rt::tick(); return e; }
    static uint64_t ad(const S<O>& p) { return uint64_t(reinterpret_cast<uintptr_t>(p.get())); }
    S<O> st_load(int k) {
        int e = ev_begin(E_LOAD, k);
        S<O> p = static_cast<const typename P::template storage<O>&>(st[k]).load();
        auto& x = ev_end(e);
        x.res_p = ad(p); x.res_k = P::key(p);
        return p;
    }
    void st_store(int k, S<O> p) {
        int e = ev_begin(E_STORE, k);
        res->sev[size_t(e)].arg_p = ad(p); res->sev[size_t(e)].arg_k = P::key(p);
        st[k].store(std::move(p));
        ev_end(e);
    }
    S<O> st_xchg(int k, S<O> p) {
        int e = ev_begin(E_XCHG, k);
        res->sev[size_t(e)].arg_p = ad(p); res->sev[size_t(e)].arg_k = P::key(p);
        S<O> r = st[k].exchange(std::move(p));
        auto& x = ev_end(e);
        x.res_p = ad(r); x.res_k = P::key(r);
        return r;
    }
    bool st_cas(int k, S<O>& expect, S<O> p) {
        int e = ev_begin(E_CAS, k);
        { auto& x = res->sev[size_t(e)]; x.arg_p = ad(p); x.arg_k = P::key(p); x.exp_p = ad(expect); }
        uint64_t ek = P::key(expect), ep = ad(expect);
        bool ok = st[k].compare_exchange(expect, std::move(p));
        auto& x = ev_end(e);
        x.ok = ok; x.res_p = ad(expect); x.res_k = P::key(expect);
        if (ok && (x.res_p != ep || x.res_k != ek)) eng::fail("%s: a compare_exchange which succeeded changed the expected value", P::name);
        return ok;
    }
    // lock with the check of what it may give: o is what the weak pointer observes
    template <typename WP> auto lock(const WP& w, int o, const char* what) {
        uint32_t z = 0; bool had = false, dead = false;
        if (o >= 0) { z = facts[o].zero_events; had = facts[o].definite > 0; dead = facts[o].null_seen || facts[o].destroyed; }
        auto p = w.lock();
        bool owner = P::key(p) != 0;
        if (owner) {
            if (o < 0) eng::fail("%s: %s of a weak pointer without owner gives an owner", P::name, what);
            if (dead) eng::fail("%s: %s gives an owner of object %d, whose last owner was gone before", P::name, what, o);
            if (!facts[o].alive) eng::fail("%s: %s gives an owner of object %d, which was destroyed", P::name, what, o);
            if (P::key(p) != facts[o].key) eng::fail("%s: %s gives another owner", P::name, what);
            own(o);
            ++res->locks_ok;
        }
        else {
            if (p.get()) eng::fail("%s: %s gives an address without an owner", P::name, what);
            if (o >= 0) {
                if (had && facts[o].definite > 0 && facts[o].zero_events == z) eng::fail("%s: %s fails although object %d was owned all the time", P::name, what, o);
                facts[o].null_seen = true;
            }
            ++res->locks_null;
        }
        return p;
    }
    S<O> from_object(O& x, int o, const char* what) {
        uint32_t z = facts[o].zero_events; bool had = facts[o].definite > 0, dead = facts[o].null_seen || facts[o].destroyed;
        S<O> p = P::self(x);
        if (P::key(p)) {
            if (dead || !facts[o].alive) eng::fail("%s: %s gives an owner of object %d, whose last owner was gone before", P::name, what, o);
            if (P::key(p) != facts[o].key || p.get() != &x) eng::fail("%s: %s gives another owner or address", P::name, what);
            own(o);
            p->check();
            ++res->upgrades_from_object;
        }
        else {
            if (had && facts[o].definite > 0 && facts[o].zero_events == z) eng::fail("%s: %s fails although object %d was owned all the time", P::name, what, o);
            facts[o].null_seen = true;
            ++res->locks_null;
        }
        return p;
    }
    void put(Th& t, ThFact& m, int i, S<O>&& p, int o, bool direct) {  // p counts as an owner of o already
        disown(m.s[i]);
        m.s[i] = -1;
        t.s[i] = std::move(p);
        m.s[i] = o;
        m.direct[i] = direct;
    }
    void one(int tid, const uint8_t* op) {
        Th& t = th[tid];
        ThFact& m = f[tid];
        int i = op[2] % NS, j = op[3] % NS, k = op[3] & 1, wi = op[2] % NW, wj = op[3] % NW;
        switch (op[1] % NOPS) {
        case COPY: { int o = m.s[j]; bool dr = m.direct[j]; S<O> p = t.s[j]; own(o); if (op[4] & 1) put(t, m, i, std::move(p), o, dr); else { disown(m.s[i]); m.s[i] = -1; if (i == j) own(-1); t.s[i] = p; m.s[i] = o; m.direct[i] = dr; own(o); disown(o); p.reset(); } break; }
        case MOVE: if (i == j) break; { disown(m.s[i]); int o = m.s[j]; t.s[i] = std::move(t.s[j]); m.s[i] = o; m.direct[i] = m.direct[j]; m.s[j] = -1; if (t.s[j].get() || P::key(t.s[j])) eng::fail("%s: a moved from pointer is not null", P::name); break; }
        case RESET: disown(m.s[i]); m.s[i] = -1; if (op[4] % 3 == 0) t.s[i] = nullptr; else t.s[i].reset(); break;
        case SWAP: if (i == j) break; std::swap(m.s[i], m.s[j]); std::swap(m.direct[i], m.direct[j]); t.s[i].swap(t.s[j]); break;
        case WEAK: t.w[wi] = t.s[j]; m.w[wi] = m.s[j]; m.wdirect[wi] = m.direct[j]; break;
        case WCOPY: t.w[0] = t.w[1]; m.w[0] = m.w[1]; m.wdirect[0] = m.wdirect[1]; break;
        case WMOVE: t.w[wi] = std::move(t.w[1 - wi]); m.w[wi] = m.w[1 - wi]; m.wdirect[wi] = m.wdirect[1 - wi]; m.w[1 - wi] = -1; break;
        case WRESET: t.w[wi].reset(); m.w[wi] = -1; if (op[4] & 1) { t.wb.reset(); m.wb = -1; } break;
        case LOCK: {
            int o = m.w[wj];
            if (op[4] % 4 == 0 && t.w[wj].expired() && o >= 0) {
                if (facts[o].definite > 0) eng::fail("%s: expired() is true for object %d which is owned", P::name, o);
                facts[o].null_seen = true;
            }
            auto p = lock(t.w[wj], o, "lock()");
            if (p && m.wdirect[wj]) p->check();
            if (op[4] & 1 || m.s[i] < 0) put(t, m, i, std::move(p), P::key(p) ? o : -1, m.wdirect[wj]);
            else if (P::key(p)) disown(o);
            break;
        }
        case SELF: if (m.s[j] >= 0 && m.direct[j]) { int o = m.s[j]; auto p = from_object(*t.s[j], o, "shared_from_this()"); if (!p) eng::fail("%s: an owned object does not hand out an owner", P::name); put(t, m, i, std::move(p), o, true); } break;
        case WSELF: if (m.s[j] >= 0 && m.direct[j]) { t.w[wi] = P::wself(*t.s[j]); m.w[wi] = m.s[j]; m.wdirect[wi] = true; if (P::key(t.w[wi]) != facts[m.s[j]].key) eng::fail("%s: weak_from_this() gives another owner", P::name); } break;
        case ALIAS: if (m.s[j] >= 0 && m.direct[j]) { auto p = P::template alias<int>(t.s[j], &t.s[j]->data[op[4] & 1]); own(m.s[j]); disown(m.a); m.a = -1; t.a = std::move(p); m.a = m.s[j]; } else { disown(m.a); m.a = -1; t.a.reset(); } break;
        case BASE: if (m.s[j] >= 0 && m.direct[j]) { disown(m.b); m.b = -1; if (op[4] & 1) { t.b = t.s[j]; own(m.s[j]); m.b = m.s[j]; } else { int o = m.s[j]; t.b = std::move(t.s[j]); m.b = o; m.s[j] = -1; } } else { disown(m.b); m.b = -1; t.b.reset(); } break;
        case DOWN: if (m.b >= 0) { auto p = P::template down<O>(t.b); if (p.get() != facts[m.b].addr) eng::fail("%s: dynamic_pointer_cast loses the object", P::name); int o = m.b; own(o); put(t, m, i, std::move(p), o, true); } break;
        case USE: if (m.s[i] >= 0 && m.direct[i]) t.s[i]->check(); if (m.b >= 0 && t.b->pv != 77) eng::fail("%s: the base part of an owned object is gone", P::name); if (m.a >= 0 && *t.a / 7 != m.a) eng::fail("%s: the object of an alias is gone", P::name); break;
        case WRITE: if (m.s[i] >= 0 && m.direct[i]) ++t.s[i]->pt[tid]; break;
        case NEW: { int o; auto p = make(op[4], op + 3, o); put(t, m, i, std::move(p), o, true); break; }
        case LOAD: { auto p = st_load(k); int o = check_got(p, "load()"); own(o); put(t, m, i, std::move(p), o, o >= 0 && p.get() == facts[o].addr); m.direct[i] = o >= 0 && t.s[i].get() == facts[o].addr; break; }
        case STORE: if (op[4] & 1) { disown(m.s[i]); m.s[i] = -1; st_store(k, std::move(t.s[i])); } else st_store(k, t.s[i]); break;
        case XCHG: { S<O> p; if (op[4] & 1) { disown(m.s[i]); m.s[i] = -1; p = st_xchg(k, std::move(t.s[i])); } else p = st_xchg(k, t.s[i]); int o = check_got(p, "exchange()"); own(o); bool dr = o >= 0 && p.get() == facts[o].addr; put(t, m, i, std::move(p), o, dr); break; }
        case CAS: {
            int e = op[4] % NS;  // expected
            if (e == i) e = (e + 1) % NS;
            S<O> want;
            bool move = op[4] & 64;
            // what was expected may be replaced: it is not a sure owner during the call
            int eo = m.s[e];
            disown(eo); m.s[e] = -1;
            if (move) { disown(m.s[i]); m.s[i] = -1; want = std::move(t.s[i]); } else want = t.s[i];
            bool ok = st_cas(k, t.s[e], std::move(want));
            if (ok) { m.s[e] = eo; own(eo); }
            else { int o = check_got(t.s[e], "compare_exchange()"); own(o); m.s[e] = o; m.direct[e] = o >= 0 && t.s[e].get() == facts[o].addr; }
            break;
        }
        case COUNT: { long c = t.s[i].use_count(); if (m.s[i] >= 0 ? c < 1 || c > 100 + long(crowd_s) : c != 0) eng::fail("%s: use_count() is %ld", P::name, c); if (m.s[i] >= 0 && m.w[wj] == m.s[i]) { if (t.w[wj].expired() || t.w[wj].use_count() < 1) eng::fail("%s: a weak pointer expired while its object is owned", P::name); } break; }
        case GLOCK: { auto p = lock(gw, gw_o, "lock() of a shared weak pointer"); if (p) p->check(); put(t, m, i, std::move(p), P::key(p) ? gw_o : -1, true); if (!t.s[i]) m.s[i] = -1; break; }
        case GCOPY: { S<O> p = gs; own(gs_o); put(t, m, i, std::move(p), gs_o, true); break; }
        case POOL: { int x = op[3] % NPOOL; auto p = from_object(*pool[x], pool_o[x], "shared_from_this() of an object which stays"); bool got = !!p; put(t, m, i, std::move(p), got ? pool_o[x] : -1, true); break; }
        case XALIAS: if (m.s[j] >= 0 && i != j) { int x = op[4] % NS; auto p = S<O>(t.s[j], t.s[x].get()); int o = m.s[j]; own(o); bool dr = p.get() == facts[o].addr; put(t, m, i, std::move(p), o, dr); } break;
        case WVIRT: {
            int how = op[4] % 8;
            if (how < 3) { if (m.w[wj] >= 0 && m.wdirect[wj]) { t.wv = t.w[wj]; m.wv = m.w[wj]; } }
            else if (how < 5) { if (m.w[wj] >= 0 && m.wdirect[wj]) { int o = m.w[wj]; m.w[wj] = -1; t.wv = std::move(t.w[wj]); m.wv = o; if (P::key(t.w[wj])) eng::fail("%s: a weak pointer which was moved from has an owner", P::name); } }
            else if (how == 5) { if (m.s[j] >= 0 && m.direct[j]) { t.wv = t.s[j]; m.wv = m.s[j]; } }
            else { auto p = lock(t.wv, m.wv, "lock() of a weak pointer to a virtual base"); if (P::key(p)) { if (!p || p->vv != 55) eng::fail("%s: a weak pointer to a virtual base points elsewhere", P::name); disown(m.wv); } }
            break;
        }
        case WBASE: if (op[4] & 1) { if (m.w[wj] >= 0 && m.wdirect[wj]) { t.wb = t.w[wj]; m.wb = m.w[wj]; } } else { auto p = lock(t.wb, m.wb, "lock() of a weak pointer to base"); if (p && p->pv != 77) eng::fail("%s: the base part of a locked object is gone", P::name); if (P::key(p)) disown(m.wb); } break;
        }
    }
    // the addresses of this thread's pointers are reported, and no others in its memory
    template <typename A> void one_told(const A& p, bool weak, size_t& have) {
        uint64_t k = P::key(p);
        if (!k) return;
        ++have;
        for (auto& t : told) if (t.addr == &p) { if (uint64_t(reinterpret_cast<uintptr_t>(t.cb)) != k || t.weak != weak) eng::fail("a %s pointer is reported for another owner, or as another kind", kind_name(weak)); return; }
        eng::fail("a living %s pointer is not among the reported ones", kind_name(weak));
    }
    __attribute__((noinline)) void check_told(int tid) {
        Th& t = th[tid];
        size_t have = 0, n_told = 0;
        for (auto& p : t.s) one_told(p, false, have);
        one_told(t.b, false, have); one_told(t.a, false, have);
        for (auto& p : t.w) one_told(p, true, have);
        one_told(t.wb, true, have);
        one_told(t.wv, true, have);
        auto in = [](const void* p, const void* b, const void* e) { return static_cast<const char*>(p) >= static_cast<const char*>(b) && static_cast<const char*>(p) < static_cast<const char*>(e); };
        char here;
        auto sp = reinterpret_cast<const char*>(reinterpret_cast<uintptr_t>(&here));
        for (auto& x : told) {
            if (in(x.addr, &t, &t + 1)) ++n_told;
            else if (tid && in(x.addr, sp - 100000, sp)) eng::fail("a %s pointer which is gone is still reported", kind_name(x.weak));
        }
        if (n_told != have) eng::fail("thread %d has %zu pointers with an owner, %zu are reported", tid, have, n_told);
    }
    void check_all_told() {
        size_t have = 0, inside = 0;
        for (int t = 1; t <= nthreads; ++t) check_told(t), have += count_told(&th[t], &th[t] + 1);
        one_told(gs, false, have); one_told(gw, true, have);
        for (int k = 0; k < 2; ++k) {
            size_t c = count_told(&st[k], &st[k] + 1);
            auto p = st[k].load();
            if (c != (P::key(p) ? 1u : 0u)) eng::fail("a storage is reported %zu times", c);
            have += c;
        }
        // an object which hands out owners of itself may have a weak pointer inside
        for (int o = 0; o < nfacts; ++o) if (facts[o].made && (facts[o].alive || is_pool(o))) { auto b = static_cast<const O*>(facts[o].addr); size_t c = count_told(b, b + 1); if (c > 1) eng::fail("an object is reported %zu times", c); inside += c; }
        if (told.size() != have + inside) eng::fail("in the end %zu pointers are reported, %zu exist", told.size(), have + inside);
    }
    bool is_pool(int o) { for (int x : pool_o) if (x == o) return true; return false; }
    size_t count_told(const void* b, const void* e) { size_t n = 0; for (auto& x : told) if (static_cast<const char*>(x.addr) >= static_cast<const char*>(b) && static_cast<const char*>(x.addr) < static_cast<const char*>(e)) ++n; return n; }
    static void body(int tid, void* arg) {
        auto w = static_cast<World*>(arg);
        for (size_t p = HEAD, c = 0; p + OPSZ <= w->n; p += OPSZ, ++c) {
            if (w->d[p] % w->nthreads + 1 != tid) continue;
            rt::say("operation %zu: %s(%d, %d, %d)", c + 1, op_name(w->d[p + 1] % NOPS), w->d[p + 2], w->d[p + 3], w->d[p + 4]);
            w->one(tid, w->d + p);
            if constexpr (P::tracked) w->check_told(tid);
        }
    }
    void setup() {
        for (auto& x : f) { for (int& o : x.s) o = -1; for (int& o : x.w) o = -1; x.a = x.b = x.wb = x.wv = -1; for (bool& b : x.direct) b = false; for (bool& b : x.wdirect) b = false; }
        gs_o = gw_o = -1;
        for (auto& x : pool_o) x = -1;
        nthreads = threads_of(head);
        int nobj = 1 + head[1] % 3;
        S<O> mine[4]; int ids[4] = {-1, -1, -1, -1};
        for (int i = 0; i < nobj; ++i) { uint8_t a[3] = {uint8_t(head[2] >> (2 * i)), head[3], uint8_t(i)}; mine[i] = make(uint8_t(head[4] + i), a, ids[i]); }
        // who starts with what
        for (int t = 1; t <= nthreads; ++t) {
            for (int i = 0; i < nobj && i < NS; ++i) {
                unsigned bit = unsigned(t - 1) * 3 + unsigned(i);
                bool strong = (head[5] | head[6] << 8) >> bit & 1;
                if (strong || (t - 1) % nobj == i) { th[t].s[i] = mine[i]; f[t].s[i] = ids[i]; f[t].direct[i] = true; own(ids[i]); }
            }
            int wo = (head[7] + t) % nobj;
            th[t].w[0] = mine[wo]; f[t].w[0] = ids[wo]; f[t].wdirect[0] = true;
            if (head[7] & 16) { th[t].wb = mine[wo]; f[t].wb = ids[wo]; }
        }
        if (head[7] & 32) { st[0].store(mine[0]); }
        if (head[7] & 64) { st[1].store(mine[nobj - 1]); }
        if (head[7] & 128) { gs = mine[0]; gs_o = ids[0]; own(gs_o); }
        gw = mine[nobj - 1]; gw_o = ids[nobj - 1];
        gather(mine[0], ids[0]);
        for (int i = 0; i < 2; ++i) { auto p = st[i].load(); res->init_p[i] = ad(p); res->init_k[i] = P::key(p); }
        for (int i = 0; i < NPOOL; ++i) {
            int id = new_fact(nullptr);
            uint8_t none[3] = {};
            pool[i] = new O(id, none);
            S<O> p(pool[i], PoolDel<P>());
            facts[id].key = P::key(p); facts[id].addr = p.get(); facts[id].made = true;
            own(id);
            pool_o[i] = id;
            int t = 1 + (head[4] + i) % nthreads;           // one or two threads own it in the beginning
            f[t].s[2] >= 0 ? disown(f[t].s[2]) : void();
            th[t].s[2] = p; f[t].s[2] = id; f[t].direct[2] = true; own(id);
            int u = 1 + (head[4] + i + 1) % nthreads;
            th[u].w[1] = p; f[u].w[1] = id; f[u].wdirect[1] = true;
            disown(id);
            p.reset();
        }
        for (int i = 0; i < nobj; ++i) { disown(ids[i]); mine[i].reset(); }
        // the storages alone do not count as sure owners
        res->shared_objects = uint32_t(nobj);
    }
    void finale() {
        teardown = true;
        // everyone is done: the books must balance
        int expect[MAXO] = {};
        for (int t = 1; t <= nthreads; ++t) { for (int o : f[t].s) if (o >= 0) ++expect[o]; if (f[t].a >= 0) ++expect[f[t].a]; if (f[t].b >= 0) ++expect[f[t].b]; }
        if (gs_o >= 0) ++expect[gs_o];
        if (crowd_s) expect[crowd_o] += int(crowd_s);
        S<O> in[2];
        for (int k = 0; k < 2; ++k) { in[k] = st[k].load(); res->fin_p[k] = ad(in[k]); res->fin_k[k] = P::key(in[k]); int o = check_got(in[k], "the storage in the end"); if (o >= 0) expect[o] += 2; }
        if constexpr (P::tracked) { for (auto& p : in) p.reset(); check_all_told(); for (int k = 0; k < 2; ++k) in[k] = st[k].load(); }
        auto check_count = [&](long c, int o) { if (o >= 0 && c != expect[o]) eng::fail("%s: in the end object %d has use_count() %ld, %d shared pointers own it", P::name, o, c, expect[o]); };
        for (int k = 0; k < 2; ++k) check_count(in[k].use_count(), object_of(P::key(in[k])));
        for (int t = 1; t <= nthreads; ++t) {
            for (int i = 0; i < NS; ++i) {
                if (P::key(th[t].s[i]) != (f[t].s[i] >= 0 ? facts[f[t].s[i]].key : 0)) eng::fail("%s: in the end a shared pointer has another owner than it was given", P::name);
                check_count(th[t].s[i].use_count(), f[t].s[i]);
            }
            check_count(th[t].a.use_count(), f[t].a);
            check_count(th[t].b.use_count(), f[t].b);
            for (int i = 0; i < NW; ++i) if (f[t].w[i] >= 0) check_count(th[t].w[i].use_count(), f[t].w[i]);
        }
        for (int o = 0; o < nfacts; ++o) {
            bool owned = expect[o] > 0;
            if (facts[o].made && facts[o].alive != owned) eng::fail(owned ? "%s: in the end object %d is destroyed although it is owned" : "%s: in the end object %d is alive although nobody owns it", P::name, o);
            facts[o].definite = 0;
        }
        scatter();
        for (auto& p : in) p.reset();
        for (int t = 1; t <= nthreads; ++t) { Th& x = th[t]; for (auto& p : x.s) p.reset(); x.a.reset(); x.b.reset(); }
        gs.reset();
        acts = false;
        for (int k = 0; k < 2; ++k) st[k].store(nullptr);
        for (int o = 0; o < nfacts; ++o) if (facts[o].made && (facts[o].alive || facts[o].destroyed != 1)) eng::fail("%s: object %d is destroyed %d times", P::name, o, facts[o].destroyed);
        for (int t = 1; t <= nthreads; ++t) { Th& x = th[t]; for (auto& p : x.w) { if (p.lock()) eng::fail("%s: a weak pointer revives an object", P::name); p.reset(); } if (x.wv.lock()) eng::fail("%s: a weak pointer revives an object", P::name); x.wb.reset(); x.wv.reset(); }
        gw.reset();
        for (auto& p : pool) { p->magic = 0xB00B; delete p; p = nullptr; }
    }
};
template <typename P> void Obj<P>::action() {
    auto w = Cur<P>::w;
    if (!w || teardown || !w->acts) return;
    int k = act[1] & 1;
    using S = typename P::template sptr<Obj>;
    switch (act[0] % 4) {
    case 0: break;
    case 1: { S p = w->st_load(k); w->check_got(p, "load() in a destructor"); break; }
    case 2: if (act[1] & 2) w->st_store(k, nullptr); else { S p = w->st_xchg(k, nullptr); w->check_got(p, "exchange() in a destructor"); } break;
    default: {
        S e;
        if (act[1] & 2) e = w->st_load(k);
        bool ok = w->st_cas(k, e, nullptr);
        if (!ok) w->check_got(e, "compare_exchange() in a destructor");
        break;
    }
    }
}
template <typename P> void Obj<P>::look() {
    auto w = Cur<P>::w;
    if (!w || teardown || !rt::tid()) return;
    auto copy = w->th[rt::tid()].wv;
    (void)copy.expired();
}
template <typename P> void run_world(const std::string& prop, const uint8_t* d, size_t n, Result& r) {
    res = &r;
    nfacts = 0;
    teardown = false;
    told.clear();
    for (auto& x : nested_n) x = 0;
    bool acts = prop == "C21" || prop == "C14";
    rt::begin(d);
    auto w = new World<P>;
    w->d = d; w->n = n; w->head = d + rt::HEADER; w->acts = acts;
    Cur<P>::w = w;
    w->setup();
    rt::run(w->nthreads, World<P>::body, w);
    w->finale();
    Cur<P>::w = nullptr;
    delete w;
    if (!told.empty()) eng::fail("%s: in the end a %s pointer is still reported", P::name, kind_name(told[0].weak));
    if (rt::live_blocks()) { char b[120]; rt::describe_live(b, sizeof(b)); eng::fail("%s: memory is never released: %s", P::name, b); }
    rt::end();
}

void run_xmem(const std::string& prop, const uint8_t* d, size_t n, Result& r) { run_world<XP>(prop, d, n, r); }
void run_tracked(const std::string& prop, const uint8_t* d, size_t n, Result& r) { run_world<TP>(prop, d, n, r); }
void run_std(const std::string& prop, const uint8_t* d, size_t n, Result& r) { run_world<SP>(prop, d, n, r); }

// ---- a counter used by several threads (C15) ----
struct CWorld { xmem::atomic_ref_count c; const uint8_t* d; size_t n; int nthreads; };
int tokens[rt::MAXT];
void counter_body(int tid, void* arg) {
    auto w = static_cast<CWorld*>(arg);
    for (size_t p = HEAD, k = 0; p + OPSZ <= w->n; p += OPSZ, ++k) {
        if (w->d[p] % w->nthreads + 1 != tid) continue;
        int kind = w->d[p + 1] % 4;
        int& have = tokens[tid];
        if (kind == C_DEC && have == 0) kind = C_INCNZ;
        if (kind == C_INC && have == 0) kind = C_INCNZ;   // only an owner may do that
        CEv e{};
        e.kind = uint8_t(kind); e.tid = uint8_t(tid);
        e.inv = rt::tick();
        if (kind == C_DEC) --have;
        switch (kind) {
        case C_INC: e.res = w->c.inc(); ++have; break;
        case C_DEC: e.res = w->c.dec(); break;
        case C_INCNZ: e.res = w->c.inc_nz(); if (e.res) ++have; break;
        default: e.res = static_cast<const CWorld*>(w)->c.count(); break;
        }
        e.resp = rt::tick();
        static const char* n[] = {"inc", "dec", "inc_nz", "count"};
        rt::say("operation %zu: %s gives %u", k + 1, n[kind], e.res);
        res->cev.push_back(e);
    }
}
void run_counter(const uint8_t* d, size_t n, Result& r) {
    res = &r;
    rt::begin(d);
    auto h = d + rt::HEADER;
    auto w = new CWorld;
    w->d = d; w->n = n; w->nthreads = threads_of(h);
    for (int& t : tokens) t = 0;
    uint32_t extra = 0;
    // tokens in the beginning: at least one somewhere
    uint32_t total = 0;
    for (int t = 1; t <= w->nthreads; ++t) { tokens[t] = (h[1] >> (2 * (t - 1))) & 3; if (tokens[t] == 3) tokens[t] = 1; total += uint32_t(tokens[t]); }
    if (!total) { tokens[1] = 1; total = 1; }
    if (uint32_t n = crowd_size(h)) {        // tokens which nobody gives back
        rt::quiet(true);
        for (uint32_t i = 0; i < n; ++i) { uint32_t x = w->c.inc(); if (x != i + 2) eng::fail("inc() of %u gives %u", i + 1, x); }
        rt::quiet(false);
        extra = n;
        r.crowd = n;
    }
    for (uint32_t i = 1; i < total; ++i) w->c.inc();
    total += extra;
    r.c_init = total;
    rt::run(w->nthreads, counter_body, w);
    uint32_t sum = extra;
    for (int t = 1; t <= w->nthreads; ++t) sum += uint32_t(tokens[t]);
    r.c_final = w->c.count();
    if (r.c_final != sum) eng::fail("the counter is %u in the end, %u increments are left", r.c_final, sum);
    if (r.c_final == 0 && w->c.inc_nz() != 0) eng::fail("the counter leaves zero");
    delete w;
    rt::end();
}
} // namespace sc
