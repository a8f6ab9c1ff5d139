// The interpreter of pointer programs, for any pointer library (policy P).
// It runs a program (a sequence of 8 byte operations) over a universe of typed slots and of objects which
// hold pointers themselves, and logs everything a user of the pointers can observe.
// The same program run with the reference model must give the same log.
#pragma once
#include "engine.hpp"
#include "track.hpp"
#include "ref.hpp"
#include <tuple>
#include <type_traits>
#include <new>
#include <utility>

constexpr size_t OPSZ = 8;

enum OpCode : uint8_t {
    MAKE, COPY, MOVE, SWAP, RESET, ALIAS, CAST,
    WFROM, WCOPY, WMOVE, WSWAP, WRESET, WALIAS, LOCK,
    LINK, ADVANCE, UNIQ, ESF, ESFRAW, STORE, EXCH, CAS, LOADOP, MASS, TEMP, CMP, SELF, ARR, NVOP, VOIDOP, NULLOP, WLINK, SOBS,
    NOPS
};
inline const char* op_name(uint8_t c) {
    static const char* n[] = {"MAKE","COPY","MOVE","SWAP","RESET","ALIAS","CAST","WFROM","WCOPY","WMOVE","WSWAP","WRESET","WALIAS","LOCK",
        "LINK","ADVANCE","UNIQ","ESF","ESFRAW","STORE","EXCH","CAS","LOAD","MASS","TEMP","CMP","SELF","ARR","NV","VOID","NULL","WLINK","SOBS"};
    return c < NOPS ? n[c] : "?";
}

struct LogEntry { uint32_t op; uint32_t what; uint64_t val; };

struct RunCtx {                       // one run of one program with one library
    eng::hvec<LogEntry> log;
    eng::hvec<uint8_t> threw;         // per creation attempt: did it throw
    const eng::hvec<uint8_t>* replay_threw = nullptr; // for the reference
    // classification
    bool c_destroyed_in_op = false, c_reentrant = false, c_alias = false, c_cast = false, c_weak_expired = false, c_lock_ok = false,
        c_lock_null = false, c_advance = false, c_cycle = false, c_esf = false, c_esf_unowned = false, c_fault = false, c_storage = false, c_mass = false, c_same_address = false,
        c_conv = false, c_virt = false, c_uniq = false, c_array = false, c_deleter = false, c_reent_storage = false, c_swap = false, c_selfop = false,
        c_released_by_place = false, c_noalloc = false, c_ctor_throw = false, c_cb_throw = false, c_null_owner = false, c_moved = false;
    uint64_t n_objects = 0, n_ops = 0;
};

struct Options {
    bool faults = false;      // operations may have an injected failure
    bool noalloc = false;     // sharing operations run with every allocation refused
    bool std_common = false;  // only what std has too
    bool reentrant = true;    // destructors act on the slots
    bool parts = true;        // void pointers are told apart by the part of the object they point to
};

struct Boom {};               // thrown by constructors

enum Tag : uint32_t { T_CTOR = 1, T_DTOR, T_DTOR_DERIVED, T_DEL, T_PTR, T_BOOL, T_USE, T_OWN, T_SAME, T_NONE, T_OB, T_EXP, T_CMP, T_THREW, T_CAS,
    T_DEREF, T_REENT, T_RECORDS, T_COUNT, T_ESF, T_UPTR, T_MISC, T_ELEM_CTOR, T_ELEM_DTOR, T_WBOOL, T_LOCKED, T_COPYCTOR, T_DELID, T_END, T_BUDGET };
inline const char* tag_name(uint32_t t) {
    static const char* n[] = {"?","object constructed","object destroyed","derived part destroyed","deleter called on","get()","operator bool","use_count()",
        "owner","same_owner","no_owner","owner_before","expired()","comparison","threw","compare_exchange","value through * -> []","re-entrant action",
        "number of living owner records","use count of mass copies","shared_from_this/weak_from_this","unique_ptr","misc","array element constructed","array element destroyed","weak operator bool","lock()",
        "object copied","deleter id","end of program","budget"};
    return t < sizeof(n) / sizeof(*n) ? n[t] : "?";
}

template <typename P> struct World;
template <typename P> struct Cur { static inline World<P>* w = nullptr; };

// ---- the universe of objects ----
enum Kind : uint8_t { K_OBJ, K_CHILD, K_MULTI, K_VIRT, K_ESF, K_ESFT, K_NONE };

struct Init { uint8_t kindmask = 0; uint8_t act[3] = {0, 0, 0}; bool boom = false; bool boom_derived = false; };

template <typename P> struct Child; template <typename P> struct Multi; template <typename P> struct Virt;
template <typename P> struct EsfObj; template <typename P> struct EsftObj;

struct PolyPad { int pad = 7; virtual ~PolyPad() { pad = -7; } };
struct Vec { double x = 1.5; virtual ~Vec() { x = -1; } };

template <typename P>
struct Obj {
    uint32_t magic = 0x0B1EC7ED;
    int id;
    int val;
    int arr[3];
    uint8_t act[3];
    typename P::template sptr<Obj> l[2];
    typename P::template wptr<Obj> w;
    typename P::template uptr<Obj> u;
    explicit Obj(const Init& in);
    Obj();                        // as said by the world
    Obj(const Obj& o);
    Obj& operator=(const Obj&) { return *this; }
    virtual ~Obj();
};
template <typename P> struct Child : Obj<P> { int extra = 5; explicit Child(const Init& in); Child(); ~Child(); };
template <typename P> struct Multi : PolyPad, Obj<P>, Vec { explicit Multi(const Init& in); Multi(); ~Multi(); };
template <typename P> struct Virt : virtual Obj<P> { int vv = 3; explicit Virt(const Init& in); Virt(); ~Virt(); };
template <typename P> struct EsfObj : Obj<P>, P::esf {
    explicit EsfObj(const Init& in); EsfObj(); EsfObj(const EsfObj& o); EsfObj& operator=(const EsfObj& o) = default; ~EsfObj();
    using B = typename P::esf;
    // give the interpreter access
    auto sft() { return P::esf_call([&] { return B::shared_from_this(); }); }
    auto csft() const { return P::esf_call([&] { return B::shared_from_this(); }); }
    auto wft() { return P::esf_call([&] { return B::weak_from_this(); }); }
    auto cwft() const { return P::esf_call([&] { return B::weak_from_this(); }); }
    template <typename T> auto sf(T* p) const { return P::esf_call([&] { return B::shared_from(p); }); }
    template <typename T> auto wf(T* p) const { return P::esf_call([&] { return B::weak_from(p); }); }
};
template <typename P> struct EsftObj : Obj<P>, P::template esft<EsftObj<P>> {
    explicit EsftObj(const Init& in); EsftObj(); EsftObj(const EsftObj& o); EsftObj& operator=(const EsftObj& o) = default; ~EsftObj();
    using B = typename P::template esft<EsftObj<P>>;
    auto sft() { return P::esf_call([&] { return B::shared_from_this(); }); }
    auto csft() const { return P::esf_call([&] { return B::shared_from_this(); }); }
    auto wft() { return P::esf_call([&] { return B::weak_from_this(); }); }
    auto cwft() const { return P::esf_call([&] { return B::weak_from_this(); }); }
};
template <typename P> struct Elem { uint32_t magic = 0xE1E3; int id; Elem(); ~Elem(); };
struct NV { int v = 11; };
template <typename P> struct NVD : NV { uint32_t magic = 0x57D; int id; explicit NVD(bool boom = false); ~NVD(); };

// ---- deleters ----
template <typename P>
struct Del {
    int id = -1; uint8_t mode = 0; // mode 1: leaves the object alone
    Del(); Del(int id, uint8_t mode); Del(const Del& o); Del(Del&& o) noexcept; ~Del();
    Del& operator=(const Del& o) = default;
    Del& operator=(Del&& o) noexcept { id = o.id; mode = o.mode; o.id = -2; return *this; }
    template <typename T> void operator()(T* p) const;
};
template <typename P> void fn_del(Obj<P>* p);
template <typename P> void fn_del_c(const Obj<P>* p);
template <typename P>
struct ArrDel {
    int id = -1;
    ArrDel(); explicit ArrDel(int id); ArrDel(const ArrDel& o); ArrDel(ArrDel&& o) noexcept; ~ArrDel();
    ArrDel& operator=(ArrDel&&) noexcept = default;
    ArrDel& operator=(const ArrDel&) noexcept = default;
    void operator()(Elem<P>* p) const;
};

// ---- a stateful allocator ----
struct AllocState { int live = 0; int made = 0; };
template <typename T>
struct TA {
    using value_type = T;
    AllocState* s;
    explicit TA(AllocState* s) noexcept : s(s) {}
    TA(const TA& o) noexcept : s(o.s) {}
    TA& operator=(const TA&) noexcept = default;
    template <typename U> TA(const TA<U>& o) noexcept : s(o.s) {}
    ~TA() { *const_cast<AllocState* volatile*>(&s) = nullptr; }
    T* allocate(size_t n) { if (!s) eng::fail("an allocator is used which was destroyed"); void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T))); ++s->live; ++s->made; return static_cast<T*>(p); }
    void deallocate(T* p, size_t n) noexcept {
        if (!s) eng::fail("an allocator is used which was destroyed");
        --s->live;
        if (track::is_block(p) && track::block_size(p) != n * sizeof(T)) eng::fail("an allocator is given back %zu objects, which is not what it gave", n);
        ::operator delete(static_cast<void*>(p), std::align_val_t(alignof(T)));
    }
    template <typename U> bool operator==(const TA<U>& o) const noexcept { return s == o.s; }
    template <typename U> bool operator!=(const TA<U>& o) const noexcept { return s != o.s; }
};

// ---- the world ----
template <typename P>
struct World {
    template <typename T> using S = typename P::template sptr<T>;
    template <typename T> using W = typename P::template wptr<T>;
    using O = Obj<P>;
    using CO = const Obj<P>;
    template <typename T, size_t N> struct Slots { S<T> s[N]; static constexpr size_t n = N; };
    template <typename T, size_t N> struct WSlots { W<T> s[N]; static constexpr size_t n = N; };

    struct Info {
        O* o = nullptr; bool alive = false; uint8_t kind = K_OBJ; bool ext = false;
        const void *child = nullptr, *pad = nullptr, *vec = nullptr, *multi = nullptr, *virt = nullptr, *esf = nullptr, *esft = nullptr;
        const char* lo = nullptr; const char* hi = nullptr;
        EsfObj<P>* esf_raw = nullptr; EsftObj<P>* esft_raw = nullptr;
    };

    RunCtx& ctx;
    Options opt;
    eng::hvec<Info> reg;
    eng::hvec<std::pair<const void*, int>> nvs, elems;
    int next_elem = 0, next_nv = 0, next_owner = 0;
    int del_live = 0;
    uint32_t cur_op = 0;
    int depth = 0;
    int budget = 48;           // re-entrant actions left
    bool fail_ctor = false;    // next Obj constructor throws
    bool fail_derived = false;
    Init pending;              // for objects made without arguments
    bool tearing_down = false;
    int statics[4] = {100, 101, 102, 103};
    AllocState arena[2];
    Del<P>* refdel[2];

    Slots<O, 4> so; Slots<CO, 2> sco; Slots<Child<P>, 2> sch; Slots<Multi<P>, 1> smu; Slots<PolyPad, 2> spp; Slots<Vec, 1> sve;
    Slots<void, 2> svo; Slots<int, 2> sin; Slots<Virt<P>, 1> svi; Slots<EsfObj<P>, 1> ses; Slots<EsftObj<P>, 1> set; Slots<NV, 1> snv; Slots<Elem<P>[], 2> sar;
    Slots<const void, 1> scv;
    WSlots<O, 3> wo; WSlots<CO, 1> wco; WSlots<Child<P>, 1> wch; WSlots<PolyPad, 1> wpp; WSlots<void, 1> wvo; WSlots<int, 1> win; WSlots<Virt<P>, 1> wvi;
    WSlots<Elem<P>[], 1> war; WSlots<EsfObj<P>, 1> wes; WSlots<EsftObj<P>, 1> wet; WSlots<NV, 1> wnv; WSlots<const void, 1> wcv;
    typename P::template uptr<O> un[2];
    using UD = typename P::template uptr<O, Del<P>>;
    struct Sto { typename P::template storage<O> st; } * sto;

    World(RunCtx& c, Options o) : ctx(c), opt(o) {
        Cur<P>::w = this;
        reg.reserve(256);
        refdel[0] = static_cast<Del<P>*>(std::malloc(sizeof(Del<P>)));
        refdel[1] = static_cast<Del<P>*>(std::malloc(sizeof(Del<P>)));
        new (refdel[0]) Del<P>(901, 0);
        new (refdel[1]) Del<P>(902, 0);
        void* m = std::aligned_alloc(64, (sizeof(Sto) + 63) / 64 * 64);
        sto = new (m) Sto;
    }
    ~World() { Cur<P>::w = nullptr; }

    // ---------------- logging ----------------
    void L(uint32_t what, uint64_t v) {
        if (ctx.log.size() > 400000) eng::fail("harness: log too long");
        ctx.log.push_back({cur_op, what, v});
    }

    // the name of an address: object number * 16 + part
    template <typename T>
    uint64_t norm(T* pp) {
        const void* p = pp;
        if (!p) return 0;
        using U = std::remove_cv_t<T>;
        for (int i = 0; i < 4; ++i) if (p == &statics[i]) return 0xF000 + uint64_t(i);
        if constexpr (std::is_same_v<U, NV>) {
            for (auto& n : nvs) if (n.first == p) return 0xA0000 + uint64_t(n.second);
            return 0xBAD2;
        }
        else if constexpr (std::is_same_v<U, Elem<P>>) {
            for (auto& n : elems) if (n.first == p) return 0xE0000 + uint64_t(n.second);
            return 0xBAD3;
        }
        for (size_t i = reg.size(); i-- > 0;) {
            auto& r = reg[i];
            if (!r.alive) continue;
            uint64_t b = (i + 1) * 16;
            if constexpr (std::is_same_v<U, O>) { if (p == r.o) return b; }
            else if constexpr (std::is_same_v<U, Child<P>>) { if (p == r.child) return b + 1; }
            else if constexpr (std::is_same_v<U, PolyPad>) { if (p == r.pad) return b + 2; }
            else if constexpr (std::is_same_v<U, Vec>) { if (p == r.vec) return b + 3; }
            else if constexpr (std::is_same_v<U, Multi<P>>) { if (p == r.multi) return b + 4; }
            else if constexpr (std::is_same_v<U, Virt<P>>) { if (p == r.virt) return b + 5; }
            else if constexpr (std::is_same_v<U, EsfObj<P>>) { if (p == r.esf) return b + 6; }
            else if constexpr (std::is_same_v<U, EsftObj<P>>) { if (p == r.esft) return b + 7; }
            else if constexpr (std::is_same_v<U, int>) {
                if (p == &r.o->val) return b + 8;
                for (int k = 0; k < 3; ++k) if (p == &r.o->arr[k]) return b + 9 + uint64_t(k);
            }
            else if (p >= r.lo && p < r.hi) { // void and others: tell the parts apart which have names
                uint64_t part = 0;
                if (!opt.parts) part = 0;
                else if (p == r.o) part = 1;
                else if (p == r.pad) part = 2;
                else if (p == r.vec) part = 3;
                else if (p == r.multi || p == r.virt || p == r.child) part = 4;
                else if (p == r.esf || p == r.esft) part = 5;
                else if (p == &r.o->val) part = 6;
                else for (uint64_t k = 0; k < 3; ++k) if (p == &r.o->arr[k]) part = 7 + k;
                return b + 15 + (part << 32);
            }
        }
        return 0xBAD1;
    }
    // is the void pointer exactly the address of the object's Obj part (or of a field)
    int id_of(const O* p) { for (size_t i = reg.size(); i-- > 0;) if (reg[i].alive && reg[i].o == p) return int(i); return -1; }
    uint8_t kind_of(const O* p) { int i = id_of(p); return i < 0 ? uint8_t(K_NONE) : reg[size_t(i)].kind; }

    // ---------------- owners of the slots, numbered in order of appearance ----------------
    using Key = decltype(P::key(std::declval<S<O>>()));
    eng::hvec<Key> keys;
    template <typename A> uint64_t own_num(const A& a) {
        if (P::none(a)) return 0;
        Key k = P::key(a);
        for (size_t i = 0; i < keys.size(); ++i) if (P::same_key(keys[i], k)) return i + 1;
        keys.push_back(k);
        return keys.size();
    }

    template <typename F> void all_strong(F f) {
        auto g = [&](auto& sl) { for (auto& s : sl.s) f(s); };
        g(so); g(sco); g(sch); g(smu); g(spp); g(sve); g(svo); g(sin); g(svi); g(ses); g(set); g(snv); g(sar); g(scv);
    }
    template <typename F> void all_weak(F f) {
        auto g = [&](auto& sl) { for (auto& s : sl.s) f(s); };
        g(wo); g(wco); g(wch); g(wpp); g(wvo); g(win); g(wvi); g(war); g(wes); g(wet); g(wnv); g(wcv);
    }

    template <typename T> void obs(const S<T>& s) {
        L(T_PTR, norm(s.get()));
        L(T_BOOL, bool(s));
        L(T_USE, uint64_t(s.use_count()));
        L(T_OWN, own_num(s));
    }
    template <typename T> void obs_w(const W<T>& w) {
        L(T_USE, uint64_t(w.use_count()));
        L(T_EXP, w.expired());
        if constexpr (std::is_array_v<T>) { L(T_SAME, P::same(w, sar.s[0])); L(T_SAME, P::same(w, sar.s[1])); L(T_NONE, P::none(w)); }
        else L(T_OWN, own_num(w));
        if constexpr (!P::is_std) if (!opt.std_common) L(T_WBOOL, P::wbool(w));
    }
    void observe_all() {
        keys.clear();
        all_strong([&](auto& s) { obs(s); });
        all_weak([&](auto& w) { obs_w(w); });
        for (size_t i = 0; i < reg.size(); ++i) {
            auto& r = reg[i];
            if (!r.alive) continue;
            obs(r.o->l[0]); obs(r.o->l[1]); obs_w(r.o->w);
            L(T_UPTR, norm(r.o->u.get()));
        }
        for (auto& u : un) L(T_UPTR, norm(u.get()));
        { auto c = sto->st.load(); L(T_PTR, norm(c.get())); L(T_USE, uint64_t(c.use_count())); L(T_OWN, own_num(c)); }
        keys.clear();
        L(T_RECORDS, P::live_records());
        if constexpr (P::tracked) P::check_tracking(*this);
    }

    // ---------------- choosing places ----------------
    // a strong pointer to Obj: a slot or a link of the object in a slot
    S<O>& place(uint8_t a) {
        S<O>& s = so.s[a & 3];
        if ((a & 0x0C) == 0x0C && s && id_of(s.get()) >= 0) return s->l[(a >> 4) & 1];
        return s;
    }
    bool in_link(uint8_t a) { return (a & 0x0C) == 0x0C && so.s[a & 3]; }
    template <typename T> S<T>& slot(uint8_t i) {
        auto pick = [&](auto& sl) -> auto& { return sl.s[i % sl.n]; };
        if constexpr (std::is_same_v<T, O>) return place(i);
        else if constexpr (std::is_same_v<T, CO>) return pick(sco);
        else if constexpr (std::is_same_v<T, Child<P>>) return pick(sch);
        else if constexpr (std::is_same_v<T, Multi<P>>) return pick(smu);
        else if constexpr (std::is_same_v<T, PolyPad>) return pick(spp);
        else if constexpr (std::is_same_v<T, Vec>) return pick(sve);
        else if constexpr (std::is_same_v<T, void>) return pick(svo);
        else if constexpr (std::is_same_v<T, const void>) return pick(scv);
        else if constexpr (std::is_same_v<T, int>) return pick(sin);
        else if constexpr (std::is_same_v<T, Virt<P>>) return pick(svi);
        else if constexpr (std::is_same_v<T, EsfObj<P>>) return pick(ses);
        else if constexpr (std::is_same_v<T, EsftObj<P>>) return pick(set);
        else if constexpr (std::is_same_v<T, NV>) return pick(snv);
        else return pick(sar);
    }
    template <typename T> W<T>& wslot(uint8_t i) {
        auto pick = [&](auto& sl) -> auto& { return sl.s[i % sl.n]; };
        if constexpr (std::is_same_v<T, O>) {
            if ((i & 0x18) == 0x18) { S<O>& s = so.s[i & 3]; if (s && id_of(s.get()) >= 0) return s->w; }
            return pick(wo);
        }
        else if constexpr (std::is_same_v<T, CO>) return pick(wco);
        else if constexpr (std::is_same_v<T, Child<P>>) return pick(wch);
        else if constexpr (std::is_same_v<T, PolyPad>) return pick(wpp);
        else if constexpr (std::is_same_v<T, void>) return pick(wvo);
        else if constexpr (std::is_same_v<T, const void>) return pick(wcv);
        else if constexpr (std::is_same_v<T, int>) return pick(win);
        else if constexpr (std::is_same_v<T, Virt<P>>) return pick(wvi);
        else if constexpr (std::is_same_v<T, EsfObj<P>>) return pick(wes);
        else if constexpr (std::is_same_v<T, EsftObj<P>>) return pick(wet);
        else if constexpr (std::is_same_v<T, NV>) return pick(wnv);
        else return pick(war);
    }
    template <typename T> struct Ty { using type = T; };
    // sources: with `seek` prefer a pointer which is not null (or has an owner) to a null one
    template <typename T> S<T>& ssrc(uint8_t i, bool seek) {
        S<T>& s = slot<T>(i);
        if (seek && !s) for (uint8_t k = 0; k < 4; ++k) { S<T>& x = slot<T>(uint8_t((i & 3) + k) & 3); if (x) return x; }
        return s;
    }
    template <typename T> W<T>& wsrc(uint8_t i, bool seek) {
        W<T>& s = wslot<T>(i);
        if (seek && P::none(s)) for (uint8_t k = 0; k < 3; ++k) { W<T>& x = wslot<T>(uint8_t((i & 7) + k) & 7); if (!P::none(x)) return x; }
        return s;
    }
    uint8_t seek_type(uint8_t t, bool seek) {
        if (seek) for (uint8_t k = 0; k < 20; ++k) {
            bool any = false;
            with_type(uint8_t(t % 20 + k), [&](auto ty) { any = bool(ssrc<typename decltype(ty)::type>(0, true)); });
            if (any) return uint8_t((t % 20 + k) % 20);
        }
        return t;
    }
    uint8_t seek_wtype(uint8_t t, bool seek) {
        if (seek) for (uint8_t k = 0; k < 16; ++k) {
            bool any = false;
            with_wtype(uint8_t(t % 16 + k), [&](auto ty) { any = !P::none(wsrc<typename decltype(ty)::type>(0, true)); });
            if (any) return uint8_t((t % 16 + k) % 16);
        }
        return t;
    }
    // call f(Ty<T>) with a strong slot type
    template <typename F> void with_type(uint8_t t, F f) {
        switch (t % 20) {
        case 0: case 1: case 2: case 3: case 4: case 5: return f(Ty<O>{});
        case 6: return f(Ty<CO>{});
        case 7: case 8: return f(Ty<Child<P>>{});
        case 9: return f(Ty<Multi<P>>{});
        case 10: return f(Ty<PolyPad>{});
        case 11: return f(Ty<Vec>{});
        case 12: return f(Ty<void>{});
        case 13: return f(Ty<int>{});
        case 14: return f(Ty<Virt<P>>{});
        case 15: return f(Ty<EsfObj<P>>{});
        case 16: return f(Ty<EsftObj<P>>{});
        case 17: return f(Ty<NV>{});
        case 18: return f(Ty<Elem<P>[]>{});
        default: return f(Ty<const void>{});
        }
    }
    template <typename F> void with_wtype(uint8_t t, F f) {
        switch (t % 16) {
        case 0: case 1: case 2: case 3: case 4: return f(Ty<O>{});
        case 5: return f(Ty<CO>{});
        case 6: return f(Ty<Child<P>>{});
        case 7: return f(Ty<PolyPad>{});
        case 8: return f(Ty<void>{});
        case 9: return f(Ty<int>{});
        case 10: return f(Ty<Virt<P>>{});
        case 11: return f(Ty<Elem<P>[]>{});
        case 12: return f(Ty<EsfObj<P>>{});
        case 13: return f(Ty<EsftObj<P>>{});
        case 14: return f(Ty<NV>{});
        default: return f(Ty<const void>{});
        }
    }
    // conversions from Src to Dst which are exercised (different types)
    template <typename Src, typename Dst> static constexpr bool convertible() {
        if constexpr (std::is_same_v<Src, Dst>) return false;
        else if constexpr (std::is_array_v<Src> || std::is_array_v<Dst>) return false;
        else if constexpr (std::is_same_v<Src, int> || std::is_same_v<Src, NV>) return false;
        else return std::is_convertible_v<Src*, Dst*>;
    }

    // ---------------- making objects ----------------
    Init init_from(const uint8_t* op) {
        Init in;
        if (opt.reentrant && (op[4] & 3) == 1) { in.act[0] = uint8_t(1 + op[5] % 20); in.act[1] = op[6]; in.act[2] = op[7]; }
        return in;
    }
#include "world_ops.inl"
};

#include "world_objs.inl"
