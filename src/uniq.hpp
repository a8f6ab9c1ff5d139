// The interpreter of unique pointer programs, for any pointer library (policy P): C10, C11, part of C20.
#pragma once
#include "engine.hpp"
#include "track.hpp"
#include "ref.hpp"
#include <tuple>
#include <type_traits>
#include <new>
#include <utility>

void pimpl_program(const uint8_t* op);  // src/uniq_pimpl.cpp
namespace uq {
constexpr size_t OPSZ = 8;
enum Op : uint8_t { NEW, MOVE, CONV, SWAP, RESET, RELEASE, HAND, SETDEL, ACCESS, DESTROY, LINK, POP, LAMBDA, ARRAY, LOCAL, PIMPL, NOPS };
inline const char* op_name(uint8_t c) {
    static const char* n[] = {"NEW","MOVE","CONV","SWAP","RESET","RELEASE","HAND","SETDEL","ACCESS","DESTROY","LINK","POP","LAMBDA","ARRAY","LOCAL","PIMPL"};
    return c < NOPS ? n[c] : "?";
}
struct Entry { uint32_t op, what; uint64_t val; };
struct Ctx {
    eng::hvec<Entry> log;
    bool c_conv = false, c_swap = false, c_hand = false, c_release = false, c_reent = false, c_dtor_read = false, c_pop = false, c_self = false, c_refdel = false, c_own_read = false, c_own_array_read = false, c_array = false, c_moveonly = false, c_pimpl = false;
    uint64_t n_objects = 0, n_ops = 0;
};
struct Options { bool reentrant = true; bool std_common = false; };
enum Tag : uint32_t { T_CTOR = 1, T_DTOR, T_DTOR2, T_DEL, T_PTR, T_BOOL, T_DELID, T_USE, T_VAL, T_ACT, T_ECTOR, T_EDTOR, T_RELEASED, T_NULLSRC, T_REFID, T_END };
inline const char* tag_name(uint32_t t) {
    static const char* n[] = {"?","object constructed","object destroyed","derived part destroyed","deleter called on","get()","operator bool","deleter","use_count()","value","destructor acts","element constructed","element destroyed",
        "released","source is null after move","referenced deleter","end of program"};
    return t < sizeof(n) / sizeof(*n) ? n[t] : "?";
}
template <typename P> struct World;
template <typename P> struct Cur { static inline World<P>* w = nullptr; };

struct Pad { int pad = 1; virtual ~Pad() { pad = -1; } };
template <typename P> struct Del;
template <typename P>
struct UB {
    template <typename T> using DD = typename P::template uptr<T>;
    uint32_t magic = 0x0B1EC7ED;
    int id, val;
    int arr[2];
    uint8_t act[3];
    typename P::template uptr<UB> child;
    typename P::template uptr<UB, Del<P>> dchild;
    explicit UB(const uint8_t* a);
    virtual ~UB();
};
template <typename P> struct UC : UB<P> { int extra = 5; explicit UC(const uint8_t* a) : UB<P>(a) { Cur<P>::w->reg[size_t(this->id)].uc = this; } ~UC(); };
template <typename P> struct UM : Pad, UB<P> { explicit UM(const uint8_t* a) : UB<P>(a) { Cur<P>::w->reg[size_t(this->id)].um = this; } ~UM(); };
template <typename P> struct UE { uint32_t magic = 0xE1E3; int id; UE(); ~UE(); };

// something inside the deleters which has to stay where it is constructed, as a short string in them would
struct Home {
    const void* at = this;
    Home() {}
    Home(const Home&) {}
    Home& operator=(const Home&) { return *this; }
    ~Home() { check(); }
    void check() const { if (at != this) eng::fail("a deleter was moved as bytes"); }
};
template <typename P> struct Del {
    int id = 1;
    Home home;
    Del(); explicit Del(int i); Del(const Del& o); Del(Del&& o) noexcept; ~Del();
    Del& operator=(const Del& o) = default;
    Del& operator=(Del&& o) noexcept { home.check(); int i = o.id; o.id = -2; id = i; return *this; }
    void operator()(UB<P>* p) const;
};
template <typename P> struct Del2 {  // made from a Del
    int id = 2;
    Home home;
    Del2(); Del2(const Del<P>& d); Del2(Del<P>&& d) noexcept; Del2(const Del2& o); ~Del2();
    Del2& operator=(const Del2&) = default;
    Del2& operator=(const Del<P>& o) { id = 1000 + o.id; return *this; }
    Del2& operator=(Del<P>&& o) noexcept { id = 1000 + o.id; o.id = -2; return *this; }
    void operator()(UB<P>* p) const;
};
template <typename P> struct MDel {  // can only be moved
    int id = 4;
    Home home;
    MDel(); explicit MDel(int i); MDel(MDel&& o) noexcept; ~MDel();
    MDel& operator=(MDel&& o) noexcept { home.check(); int i = o.id; o.id = -2; id = i; return *this; }
    void operator()(UB<P>* p);
};
template <typename P> struct ADel {
    int id = 3;
    Home home;
    ADel(); explicit ADel(int i); ADel(const ADel& o); ADel(ADel&& o) noexcept; ~ADel();
    ADel& operator=(const ADel&) = default;
    ADel& operator=(ADel&& o) noexcept { home.check(); int i = o.id; o.id = -2; id = i; return *this; }
    void operator()(UE<P>* p) const;
};
template <typename P> void fn_a(UB<P>* p);
template <typename P> void fn_b(UB<P>* p);
template <typename P> void fn_void(void* p);

template <typename P>
struct World {
    template <typename T, typename DD = typename P::template ddel<T>> using U = typename P::template uptr<T, DD>;
    using B = UB<P>; using C = UC<P>; using M = UM<P>; using E = UE<P>;
    using D = Del<P>; using D2 = Del2<P>; using AD = ADel<P>; using MD = MDel<P>;
    using Fn = void (*)(B*);
    using SB = typename P::template sptr<B>;
    using SE = typename P::template sptr<E[]>;

    struct Info { B* b; bool alive; C* uc; M* um; };
    Ctx& ctx;
    Options opt;
    eng::hvec<Info> reg;
    eng::hvec<std::pair<E*, bool>> elems;
    eng::hvec<const void*> dying;      // slots which are being destroyed
    int del_live = 0, budget = 30;
    uint32_t cur_op = 0;
    int fresh = 10;
    D refdel[2];

    template <typename T, size_t N> struct G {  // a group of slots of one type
        using type = T;
        static constexpr size_t n = N;
        alignas(T) unsigned char raw[N][sizeof(T)];
        T& operator[](size_t i) { return *reinterpret_cast<T*>(raw[i % N]); }
    };
    G<U<B>, 3> g0; G<U<C>, 1> g1; G<U<M>, 1> g2; G<U<const B>, 1> g3;
    G<U<B, D>, 2> g4; G<U<C, D>, 1> g5; G<U<B, D2>, 1> g6;
    G<U<B, D&>, 2> g7; G<U<C, D&>, 1> g8;
    G<U<B, Fn>, 2> g9; G<U<C, Fn>, 1> g10;
    G<U<E[]>, 2> g11; G<U<E[], AD>, 2> g12;
    G<U<B, MD>, 2> g13; G<U<B, const D&>, 2> g14;
    SB sb[2]; SE se;

    template <typename T> void init(T* p, size_t i) {
        if constexpr (is_ref<T>) {
            if constexpr (!P::is_std) if (i & 4) { new (p) T(refdel[i & 1]); return; }
            new (p) T(nullptr, refdel[i & 1]);
        }
        else if constexpr (is_fn<T>) {
            if constexpr (!P::is_std) if (i & 4) { new (p) T((i & 1) ? fn_b<P> : fn_a<P>); return; }
            new (p) T(nullptr, (i & 1) ? fn_b<P> : fn_a<P>);
        }
        else if (i & 4) new (p) T(nullptr);
        else new (p) T();
    }
    template <typename F> void groups(F f) { f(g0); f(g1); f(g2); f(g3); f(g4); f(g5); f(g6); f(g7); f(g8); f(g9); f(g10); f(g11); f(g12); f(g13); f(g14); }
    template <typename F> void group(uint8_t k, F f) {
        switch (k % 16) {
        case 0: case 15: return f(g0);
        case 1: return f(g1);
        case 2: return f(g2);
        case 3: return f(g3);
        case 4: return f(g4);
        case 5: return f(g5);
        case 6: return f(g6);
        case 7: return f(g7);
        case 8: return f(g8);
        case 9: return f(g9);
        case 10: return f(g10);
        case 11: return f(g11);
        case 13: ctx.c_moveonly = true; return f(g13);
        case 14: return f(g14);
        default: return f(g12);
        }
    }
    template <typename T> struct unwrap;
    template <template <typename, typename> class UU, typename T, typename DD> struct unwrap<UU<T, DD>> { using elem = T; using del = DD; };
    template <typename T> using elem_of = typename unwrap<T>::elem;
    template <typename T> using del_of = typename unwrap<T>::del;
    template <typename T> static constexpr bool is_arr = std::is_array_v<elem_of<T>>;
    template <typename T> static constexpr bool is_functor = std::is_same_v<del_of<T>, D> || std::is_same_v<del_of<T>, D2> || std::is_same_v<del_of<T>, AD> || std::is_same_v<del_of<T>, MD>;
    template <typename T> static constexpr bool is_ref = std::is_reference_v<del_of<T>>;
    template <typename T> static constexpr bool is_cref = std::is_same_v<del_of<T>, const D&>;
    template <typename T> static constexpr bool is_fn = std::is_same_v<del_of<T>, Fn>;

    World(Ctx& c, Options o) : ctx(c), opt(o), refdel{D((Cur<P>::w = this, 901)), D(902)} {
        groups([&](auto& g) { for (size_t i = 0; i < g.n; ++i) init(&g[i], i); });
    }
    void L(uint32_t what, uint64_t v) {
        if (ctx.log.size() > 200000) eng::fail("harness: log too long");
        ctx.log.push_back({cur_op, what, v});
    }
    uint64_t norm(const B* p) {
        if (!p) return 0;
        for (size_t i = reg.size(); i-- > 0;) if (reg[i].alive && reg[i].b == p) return i + 1;
        return 0xBAD1;
    }
    uint64_t norm(const C* p) { if (!p) return 0; for (size_t i = reg.size(); i-- > 0;) if (reg[i].alive && reg[i].uc == p) return 0x1000 + i; return 0xBAD2; }
    uint64_t norm(const M* p) { if (!p) return 0; for (size_t i = reg.size(); i-- > 0;) if (reg[i].alive && reg[i].um == p) return 0x2000 + i; return 0xBAD3; }
    uint64_t norm(const E* p) { if (!p) return 0; for (auto& e : elems) if (e.first == p && e.second) return 0xE000 + uint64_t(&e - elems.data()); return 0xE777; }
    template <typename T> uint64_t delid(T& s) {
        if constexpr (is_functor<T>) return uint64_t(int64_t(s.get_deleter().id));
        else if constexpr (is_ref<T>) return (&s.get_deleter() == &refdel[0] ? 0xA000 : &s.get_deleter() == &refdel[1] ? 0xB000 : 0xC000) + uint64_t(int64_t(s.get_deleter().id));
        else if constexpr (is_fn<T>) return s.get_deleter() == &fn_a<P> ? 0xF0A : s.get_deleter() == &fn_b<P> ? 0xF0B : 0xF0F;
        else return 0;
    }
    template <typename T> void obs(T& s) {
        L(T_PTR, norm(s.get()));
        L(T_BOOL, bool(s));
        if (bool(s) != (s.get() != nullptr)) eng::fail("%s: bool and get() of a unique pointer disagree", P::name);
        if (s || !is_functor<T>) L(T_DELID, delid(s));
    }
    void observe_all() {
        groups([&](auto& g) { for (size_t i = 0; i < g.n; ++i) obs(g[i]); });
        for (auto& s : sb) { L(T_PTR, norm(s.get())); L(T_USE, uint64_t(s.use_count())); }
        L(T_PTR, norm(se.get()));
        for (size_t i = 0; i < reg.size(); ++i) if (reg[i].alive) { L(T_PTR, norm(reg[i].b->child.get())); obs(reg[i].b->dchild); }
        for (auto& d : refdel) L(T_REFID, uint64_t(int64_t(d.id)));
    }
    // deleters which were moved from are in no particular state: give them a known one
    template <typename T> void normalise(T& s) { if constexpr (is_functor<T>) if (!s) s.get_deleter().id = 700; }

    template <typename T> auto make_obj(const uint8_t* op) {
        using X = std::remove_cv_t<std::remove_extent_t<elem_of<T>>>;
        if constexpr (is_arr<T>) { ctx.c_array = true; return new X[op[4] % 5]; }
        else return new X(op + 4);
    }
    template <typename T> T with_new(const uint8_t* op) {
        auto p = make_obj<T>(op);
        if constexpr (is_functor<T>) {
            using X = std::conditional_t<std::is_same_v<del_of<T>, AD>, AD, std::conditional_t<std::is_same_v<del_of<T>, MD>, MD, D>>;
            X d(++fresh);
            if constexpr (std::is_same_v<X, MD>) {
                T t(p, std::move(d));
                L(T_DELID, uint64_t(int64_t(d.id)));
                return t;
            }
            else if (op[3] & 1) {       // the deleter moves in, or is copied
                T t(p, std::move(d));
                L(T_DELID, uint64_t(int64_t(d.id)));
                return t;
            }
            if constexpr (!std::is_same_v<X, MD>) {
            T t(p, d);
            L(T_DELID, uint64_t(int64_t(d.id)));
            return t;
            }
        }
        else if constexpr (is_ref<T>) return T(p, refdel[op[3] & 1]);
        else if constexpr (is_fn<T>) return T(p, (op[3] & 1) ? fn_b<P> : fn_a<P>);
        else return T(p);
    }
    bool room() const { return reg.size() < 90 && elems.size() < 200; }
    template <typename T> void destroy(T& s) { dying.push_back(&s); s.~T(); dying.pop_back(); }
    bool is_dying(const void* s) { for (auto p : dying) if (p == s) return true; return false; }

    // dst becomes what src has, by construction or assignment
    template <typename A, typename Bq> void transfer(A& dst, Bq& src, bool construct) {
        bool had = bool(src);
        (void)had;
        bool same = static_cast<void*>(&dst) == static_cast<void*>(&src);
        if constexpr (P::is_std && is_cref<A>) return;
        else if (construct && !same) { destroy(dst); new (&dst) A(std::move(src)); }
        else dst = std::move(src);
        if (!same) { L(T_NULLSRC, !src); normalise(src); }
        else ctx.c_self = true;
    }
    template <typename A, typename Bq> void conv(A& a, Bq& b, const uint8_t* op, bool assign_ok = true) {
        ctx.c_conv = true;
        transfer(a, b, (op[4] & 1) || !assign_ok);
    }
    void do_conv(const uint8_t* op) {
        size_t i = op[2], j = op[3];
        bool ra = !opt.std_common; // assignment between pointers with deleters by reference differs from std
        switch (op[1] % 14) {
        case 0: return conv(g0[i], g1[j], op);
        case 1: return conv(g0[i], g2[j], op);
        case 2: return conv(g3[i], g0[j], op);
        case 3: return conv(g3[i], g1[j], op);
        case 4: return conv(g4[i], g5[j], op);
        case 5: return conv(g6[i], g4[j], op);
        case 6: return conv(g6[i], g5[j], op);
        case 7: ctx.c_refdel = true; return conv(g4[i], g7[j], op);
        case 8: ctx.c_refdel = true; return conv(g4[i], g8[j], op);
        case 9: ctx.c_refdel = true; return conv(g6[i], g7[j], op);
        case 10: ctx.c_refdel = true; return conv(g7[i], g8[j], op, ra);
        case 11: return conv(g9[i], g10[j], op);
        case 12: ctx.c_refdel = true; return conv(g5[i], g8[j], op); // same element type, other deleter
        default: return conv(g0[i], g1[j], op);
        }
    }
    template <typename T> void do_hand(T& s, const uint8_t* op) {
        ctx.c_hand = true;
        bool had = bool(s);
        if (!had) return; // an owner of null differs from std
        if constexpr (is_arr<T>) {
            if (op[3] & 1) se = std::move(s); else { SE t(std::move(s)); se.swap(t); }
        }
        else if constexpr (std::is_const_v<elem_of<T>>) { typename P::template sptr<const B> t(std::move(s)); L(T_USE, uint64_t(t.use_count())); }
        else if (op[3] & 1) sb[op[4] & 1] = std::move(s);
        else { SB t(std::move(s)); L(T_USE, uint64_t(t.use_count())); sb[op[4] & 1].swap(t); }
        L(T_NULLSRC, !s);
        normalise(s);
    }
    void exec(const uint8_t* op) {
        ++cur_op; ++ctx.n_ops;
        size_t i = op[2], j = op[3];
        switch (op[0] % NOPS) {
        case NEW:
            if (!room()) break;
            group(op[1], [&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                if (opt.std_common && is_ref<T>) { g[i].reset(make_obj<T>(op)); return; }
                switch (op[3] >> 6) {
                case 0: g[i].reset(make_obj<T>(op)); break;
                case 1: { T t = with_new<T>(op); destroy(g[i]); new (&g[i]) T(std::move(t)); normalise(t); break; }
                default: if constexpr (!(P::is_std && is_cref<T>)) g[i] = with_new<T>(op); break;
                }
            });
            break;
        case MOVE:
            group(op[1], [&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                if (opt.std_common && is_ref<T>) return;
                transfer(g[i], g[j], op[4] & 1);
            });
            break;
        case CONV: do_conv(op); break;
        case SWAP:
            ctx.c_swap = true;
            group(op[1], [&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                if (opt.std_common && is_ref<T>) return;
                if constexpr (P::is_std && is_cref<T>) {}
                else if (op[4] & 1) std::swap(g[i], g[j]); // by moves
                else g[i].swap(g[j]);
                normalise(g[i]); normalise(g[j]);
            });
            break;
        case RESET:
            group(op[1], [&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                switch (op[3] % 4) {
                case 0: g[i].reset(); break;
                case 1: g[i] = nullptr; break;
                case 2: g[i].reset(nullptr); break;
                default: if (room()) g[i].reset(make_obj<T>(op)); break;
                }
            });
            break;
        case RELEASE:
            ctx.c_release = true;
            group(op[1], [&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                auto p = g[i].release();
                L(T_RELEASED, norm(p));
                L(T_NULLSRC, !g[i]);
                if (op[3] & 1) { g[i].reset(p); return; }
                if constexpr (is_arr<T>) delete[] p; else delete p;
            });
            break;
        case HAND: group(op[1], [&](auto& g) { do_hand(g[i], op); }); break;
        case SETDEL:
            group(op[1], [&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                if constexpr (is_functor<T>) g[i].get_deleter().id = ++fresh;
                else if constexpr (is_ref<T> && !is_cref<T>) g[i].get_deleter().id = ++fresh;
                else if (op[3] & 1) sb[op[4] & 1].reset();
                else se.reset();
            });
            break;
        case ACCESS:
            group(op[1], [&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                auto& s = g[i];
                if (!s) return;
                if constexpr (is_arr<T>) {
                    if (norm(s.get()) != 0xE777) { L(T_VAL, uint64_t(s[0].id)); if (&s[0] != s.get() || &s[1] != s.get() + 1) eng::fail("%s: [] of a unique pointer is not the element", P::name); }
                } else {
                    L(T_VAL, uint64_t(s->val)); L(T_VAL, uint64_t((*s).arr[1]));
                    if (&*s != s.get() || s.operator->() != s.get()) eng::fail("%s: *, -> and get() of a unique pointer differ", P::name);
                    const T& cs = s;
                    if (cs.get() != s.get() || !cs || &*cs != s.get() || cs->id != s->id) eng::fail("%s: a const unique pointer differs", P::name);
                    if constexpr (!is_fn<T>) if (&cs.get_deleter() != &s.get_deleter()) eng::fail("%s: a const unique pointer has another deleter", P::name);
                }
            });
            break;
        case DESTROY: group(op[1], [&](auto& g) { destroy(g[i]); init(&g[i], size_t(i) % g.n + (op[3] & 5)); }); break;
        case LINK: {
            auto& h = g0[i];
            if (!h) break;
            switch (op[4] % 4) {
            case 0: if (&g0[j] != &h) h->child = std::move(g0[j]); break;
            case 1: if (room()) { auto n = with_new<U<B>>(op); n->child = std::move(h); h = std::move(n); } break;
            case 2: if (!h->dchild) { h->dchild = std::move(g4[j]); normalise(g4[j]); } break;  // a stateful deleter may not be freed while it is being assigned
            default: if (g1[0]) h->child = std::move(g1[0]); break;
            }
            break;
        }
        case POP: {
            auto& h = g0[i];
            if (!h) break;
            ctx.c_pop = true;
            switch (op[4] % 4) {
            case 0: case 1: h = std::move(h->child); break;
            case 2: if (h->child) h->child = std::move(h->child->child); break;
            default: if (&g0[j] != &h) h->child.swap(g0[j]); break;
            }
            break;
        }
        case LAMBDA: {
            if (!room()) break;
            int n = ++fresh;
            auto l = [this, n](B* p) { L(T_DELID, uint64_t(n)); L(T_DEL, norm(p)); delete p; };
            if (op[3] & 4) { // a functor which becomes a function pointer
                auto f = [](B* p) { fn_b<P>(p); };
                U<C, decltype(f)> z(new C(op + 4), f);
                g9[i] = std::move(z);
                L(T_NULLSRC, !z);
                break;
            }
            if (op[3] & 8) { // untyped
                using VF = void (*)(void*);
                U<void, VF> z(new B(op + 4), &fn_void<P>);
                U<void, VF> y(std::move(z));
                L(T_NULLSRC, !z); L(T_BOOL, bool(y)); L(T_PTR, norm(static_cast<B*>(y.get())));
                if (op[3] & 16) { z = std::move(y); y.swap(z); }
                if (op[3] & 32) y.reset(new B(op + 4));
                if (op[3] & 64) { typename P::template sptr<void> h(std::move(y)); L(T_USE, uint64_t(h.use_count())); }
                else if (op[3] & 128) delete static_cast<B*>(y.release());
                break;
            }
            U<B, decltype(l)> x(new B(op + 4), l);
            U<B, decltype(l)> y(std::move(x));
            L(T_NULLSRC, !x);
            L(T_PTR, norm(y.get()));
            if (op[3] & 1) sb[op[4] & 1] = std::move(y);
            else if (op[3] & 2) delete y.release();
            break;
        }
        case ARRAY: {
            if (!room()) break;
            U<E[]> x(new E[op[3] % 5]);
            U<E[]> y;
            y = std::move(x);
            L(T_NULLSRC, !x);
            if (op[4] & 1) g11[i].swap(y); else g11[i] = std::move(y);
            L(T_PTR, norm(y.get()));
            break;
        }
        case PIMPL: ctx.c_pimpl = true; if constexpr (!P::is_ref && !P::is_std) pimpl_program(op); break;
        default: { // pointers with automatic storage
            if (!room()) break;
            U<B> a(new C(op + 4));
            U<B> b;
            if (op[3] & 1) b = std::move(a); else b.swap(a);
            L(T_PTR, norm(a.get())); L(T_PTR, norm(b.get()));
            if (op[3] & 2) g0[i] = std::move(b);
            break;
        }
        }
        observe_all();
    }
    void teardown() {
        cur_op = 0xFFFF;
        for (int k = 0; k < 3; ++k) {
            if (k) budget = 0;
            groups([&](auto& g) { for (size_t i = 0; i < g.n; ++i) g[i].reset(); });
            for (auto& s : sb) s.reset();
            se.reset();
        }
        observe_all();
        groups([&](auto& g) { using T = typename std::remove_reference_t<decltype(g)>::type; for (size_t i = 0; i < g.n; ++i) g[i].~T(); });
        for (size_t i = 0; i < reg.size(); ++i) if (reg[i].alive) eng::fail("%s: object %zu is never deleted", P::name, i);
        for (auto& e : elems) if (e.second) eng::fail("%s: an array element is never destroyed", P::name);
        if (del_live != 2) eng::fail("%s: %d deleters are left", P::name, del_live - 2);
        L(T_END, 0);
    }
    ~World() {}

    // an element of an array sees the pointers to arrays, its own among them
    void look(E& self) {
        if (!opt.reentrant) return;
        auto see = [&](auto& g) {
            for (size_t i = 0; i < g.n; ++i) {
                L(T_PTR, norm(g[i].get()));
                L(T_BOOL, bool(g[i]));
                if (g[i].get() == &self) { ctx.c_own_array_read = true; L(T_VAL, uint64_t(g[i][0].id)); }
            }
        };
        see(g11); see(g12);
        L(T_PTR, norm(se.get()));
        if (self.id % 6 != 2 || budget <= 0) return;
        --budget;
        auto& x = g11[size_t(self.id / 6)];
        auto& y = g11[size_t(self.id / 6) + 1];
        bool dx = is_dying(&x), dy = is_dying(&y);
        L(T_ACT, 20);
        switch (self.id / 12 % 5) {
        case 0: if (!dx) x.reset(); break;
        case 1: if (!dx && elems.size() < 190) x.reset(new E[2]); break;
        case 2: if (!dx && !dy) x = std::move(y); break;
        case 3: if (!dx && !dy) x.swap(y); break;
        default: if (!dx) x = nullptr; break;
        }
    }
    void act(B& self) {
        if (!opt.reentrant || budget <= 0) return;
        --budget;
        ctx.c_reent = true;
        L(T_ACT, self.act[0]);
        auto& x = g0[self.act[1]];
        auto& y = g0[self.act[2]];
        bool dx = is_dying(&x), dy = is_dying(&y);
        switch (self.act[0] % 12) {
        case 1: case 2: // every pointer which holds this object still does so, and can be used
            groups([&](auto& g) {
                using T = typename std::remove_reference_t<decltype(g)>::type;
                if constexpr (!is_arr<T>) for (size_t i = 0; i < g.n; ++i) {
                    auto& s = g[i];
                    const B* p = s.get();
                    L(T_PTR, norm(s.get()));
                    L(T_BOOL, bool(s));
                    if (p == &self) { ctx.c_own_read = true; L(T_VAL, uint64_t(s->val)); L(T_VAL, uint64_t((*s).arr[0])); L(T_PTR, norm(s->child.get())); }
                }
            });
            ctx.c_dtor_read = true;
            break;
        case 3: if (!dx) x.reset(); break;
        case 4: if (!dx && room()) { static const uint8_t none[3] = {0, 0, 0}; x.reset(new B(none)); } break;
        case 5: if (!dx && !dy) x = std::move(y); break;
        case 6: if (!dx) x = nullptr; break;
        case 7: if (!dx && !dy) x.swap(y); break;
        case 8: if (!dx) x = std::move(self.child); break;
        case 9: sb[self.act[1] & 1].reset(); break;
        case 10: L(T_PTR, norm(x.get())); if (x) L(T_VAL, uint64_t(x->id)); break;
        case 11: if (!dx && room()) { static const uint8_t none[3] = {0, 0, 0}; U<C> n(new C(none)); x = std::move(n); } break;
        default: L(T_PTR, norm(self.child.get())); self.child.reset(); break;
        }
    }
};

template <typename P> UB<P>::UB(const uint8_t* a) {
    auto& w = *Cur<P>::w;
    id = int(w.reg.size());
    val = 500 + id;
    arr[0] = id * 2; arr[1] = id * 2 + 1;
    for (int i = 0; i < 3; ++i) act[i] = w.opt.reentrant && (a[0] & 1) ? a[i] >> 1 : 0;
    if (w.opt.reentrant && (a[0] & 1)) act[0] = uint8_t(1 + (a[0] >> 1) % 12);
    w.reg.push_back({this, true, nullptr, nullptr});
    ++w.ctx.n_objects;
    w.L(T_CTOR, uint64_t(id));
}
template <typename P> UB<P>::~UB() {
    auto& w = *Cur<P>::w;
    if (magic != 0x0B1EC7ED) eng::fail("%s: an object is deleted which is not alive (magic %x)", P::name, magic);
    w.L(T_DTOR, uint64_t(id));
    if (act[0]) w.act(*this);
    magic = 0xDEAD;
    w.reg[size_t(id)].alive = false;
}
template <typename P> UC<P>::~UC() { auto& w = *Cur<P>::w; if (extra != 5) eng::fail("%s: an object is deleted twice", P::name); w.L(T_DTOR2, uint64_t(this->id)); }
template <typename P> UM<P>::~UM() { Cur<P>::w->L(T_DTOR2, uint64_t(this->id)); }
template <typename P> UE<P>::UE() : id(int(Cur<P>::w->elems.size())) { Cur<P>::w->elems.push_back({this, true}); Cur<P>::w->L(T_ECTOR, uint64_t(id)); }
template <typename P> UE<P>::~UE() {
    auto& w = *Cur<P>::w;
    if (magic != 0xE1E3) eng::fail("%s: an array element is destroyed which is not alive", P::name);
    w.look(*this);
    magic = 0xDEAD;
    w.elems[size_t(id)].second = false;
    w.L(T_EDTOR, uint64_t(id));
}
template <typename P> Del<P>::Del() { ++Cur<P>::w->del_live; }
template <typename P> Del<P>::Del(int i) : id(i) { ++Cur<P>::w->del_live; }
template <typename P> Del<P>::Del(const Del& o) : id(o.id) { ++Cur<P>::w->del_live; }
template <typename P> Del<P>::Del(Del&& o) noexcept : id(o.id) { o.id = -2; ++Cur<P>::w->del_live; }
template <typename P> Del<P>::~Del() { if (id == -3) eng::fail("%s: a deleter is destroyed twice", P::name); *const_cast<volatile int*>(&id) = -3; --Cur<P>::w->del_live; }
template <typename P> Del2<P>::Del2() { ++Cur<P>::w->del_live; }
template <typename P> Del2<P>::Del2(const Del<P>& d) : id(1000 + d.id) { ++Cur<P>::w->del_live; }
template <typename P> Del2<P>::Del2(Del<P>&& d) noexcept : id(1000 + d.id) { d.id = -2; ++Cur<P>::w->del_live; }
template <typename P> Del2<P>::Del2(const Del2& o) : id(o.id) { ++Cur<P>::w->del_live; }
template <typename P> Del2<P>::~Del2() { if (id == -3) eng::fail("%s: a deleter is destroyed twice", P::name); *const_cast<volatile int*>(&id) = -3; --Cur<P>::w->del_live; }
template <typename P> MDel<P>::MDel() { ++Cur<P>::w->del_live; }
template <typename P> MDel<P>::MDel(int i) : id(i) { ++Cur<P>::w->del_live; }
template <typename P> MDel<P>::MDel(MDel&& o) noexcept : id(o.id) { o.id = -2; ++Cur<P>::w->del_live; }
template <typename P> MDel<P>::~MDel() { if (id == -3) eng::fail("%s: a deleter is destroyed twice", P::name); *const_cast<volatile int*>(&id) = -3; --Cur<P>::w->del_live; }
template <typename P> ADel<P>::ADel() { ++Cur<P>::w->del_live; }
template <typename P> ADel<P>::ADel(int i) : id(i) { ++Cur<P>::w->del_live; }
template <typename P> ADel<P>::ADel(const ADel& o) : id(o.id) { ++Cur<P>::w->del_live; }
template <typename P> ADel<P>::ADel(ADel&& o) noexcept : id(o.id) { o.id = -2; ++Cur<P>::w->del_live; }
template <typename P> ADel<P>::~ADel() { if (id == -3) eng::fail("%s: a deleter is destroyed twice", P::name); *const_cast<volatile int*>(&id) = -3; --Cur<P>::w->del_live; }
template <typename P> static void del_common(UB<P>* p, uint64_t id) {
    auto& w = *Cur<P>::w;
    if (!p) eng::fail("%s: a deleter is called with null", P::name);
    w.L(T_DELID, id);
    w.L(T_DEL, w.norm(p));
    delete p;
}
template <typename P> void Del<P>::operator()(UB<P>* p) const { home.check(); if (id == -3) eng::fail("%s: a deleter is called which was destroyed", P::name); del_common<P>(p, uint64_t(int64_t(id))); }
template <typename P> void Del2<P>::operator()(UB<P>* p) const { home.check(); if (id == -3) eng::fail("%s: a deleter is called which was destroyed", P::name); del_common<P>(p, uint64_t(int64_t(id))); }
template <typename P> void MDel<P>::operator()(UB<P>* p) { home.check(); if (id == -3) eng::fail("%s: a deleter is called which was destroyed", P::name); del_common<P>(p, uint64_t(int64_t(id))); }
template <typename P> void fn_void(void* p) { del_common<P>(static_cast<UB<P>*>(p), 0xF0D); }
template <typename P> void fn_a(UB<P>* p) { del_common<P>(p, 0xF0A); }
template <typename P> void fn_b(UB<P>* p) { del_common<P>(p, 0xF0B); }
template <typename P> void ADel<P>::operator()(UE<P>* p) const { home.check();
    auto& w = *Cur<P>::w;
    if (!p) eng::fail("%s: a deleter is called with null", P::name);
    w.L(T_DELID, uint64_t(int64_t(id)));
    w.L(T_DEL, w.norm(p));
    delete[] p;
}

template <typename P> void run_program(const uint8_t* ops, size_t n, Ctx& ctx, Options opt) {
    if (!P::is_ref) { track::reset(); track::st.on = true; }
    {
        World<P> w(ctx, opt);
        for (size_t i = 0; i + OPSZ <= n; i += OPSZ) w.exec(ops + i);
        w.teardown();
    }
    if (!P::is_ref) {
        track::st.on = false;
        if (track::st.live) {
            char b[100];
            track::describe_live(b, sizeof(b));
            eng::fail("%s: %llu blocks of memory are leaked, among them %s", P::name, static_cast<unsigned long long>(track::st.live), b);
        }
    }
}
} // namespace uq
