// Short histories over many sorts of types: what holds must not depend on what is pointed to.
#pragma once
#include "policy_xmem.hpp"
#include "engine.hpp"
#include <cstring>
#include <type_traits>

namespace ty {
const char* op_name(uint8_t);
enum { NTYPE = 26, OP = 8, HEAD = 4 };
enum { NEW, COPY, MOVE, RESET, SWAP, WEAK, WCOPY, WMOVE, WRESET, WSWAP, LOCK, ALIAS, CAST, ESF, STORE, EXCH, CAS, UNIQ, HANDOVER, TEMP, ARRNEW, ARR, MANY, NOPS };
struct Ctx { bool conv, weak, alias, cast, esf, uniq, expired, storage, failed, array, many; uint64_t objects; bool faults, refuse, failing; const volatile void* made; int lost; };
extern Ctx ctx;

// ---- objects which are noted ----
using Addr = const volatile void*;
extern eng::hvec<Addr> living;
void born(Addr p);
void died(Addr p);
template <typename D> struct Noted { // base of the types with a destructor, which has no data
    Noted() { born(this); }
    Noted(const Noted&) { born(this); }
    Noted& operator=(const Noted&) { return *this; }
    ~Noted() { died(this); }
};
struct Pad { char pad[24] = {}; };
struct VB { int x = 1; virtual ~VB() { x = -1; } };
struct VP { long y = 2; virtual ~VP() { y = -2; } };
struct AB { virtual int f() = 0; virtual ~AB() = default; };
struct NB { int z = 3; };
struct ProtB { int q = 4; protected: ~ProtB() { q = -4; } };
enum class En : unsigned char { a, b };
union Un { int i; double d; char c[24]; };
struct Pod { int a; double b; };
struct EmT {};
struct Dt : Noted<Dt> { int v = 5; };
struct Em : Noted<Em> {};
struct First : VB, Noted<First> { int v = 6; };
struct Second : Pad, VB, Noted<Second> { int v = 7; };
struct Final final : VP, VB, Noted<Final> { int v = 8; };
struct NonV : Pad, NB, Noted<NonV> { int v = 9; };
struct alignas(128) Over : Pad, NB, Noted<Over> { char c[130] = {}; };
struct Amp : Noted<Amp> { int v = 10; Amp* operator&() { return nullptr; } const Amp* operator&() const { return nullptr; } };
struct Virt : Pad, virtual VB, Noted<Virt> { int v = 11; };
struct Big : Noted<Big> { char c[5000] = {}; };
struct NoCopy : Pad, AB, Noted<NoCopy> { NoCopy() = default; NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; int f() override { return 1; } };
struct Arr { int a[7]; };
struct Prot : Pad, ProtB, Noted<Prot> { int v = 12; };
struct Diamond1 : virtual VB { int d1 = 1; };
struct Diamond2 : virtual VB { int d2 = 2; };
struct Diamond final : Diamond1, Diamond2, Noted<Diamond> { int v = 13; };
template <typename P> struct Es final : P::template esft<Es<P>>, Noted<Es<P>> { int v = 14; };
template <typename P> struct Es2 : Pad, VB, P::template esft<Es2<P>>, Noted<Es2<P>> { int v = 15; };
template <typename P> struct Es3 : VP, P::esf, VB, Noted<Es3<P>> { int v = 16; using E = typename P::esf; auto self() { return E::shared_from_this(); } template <typename T> auto of(T* p) const { return this->shared_from(p); } template <typename T> auto wof(T* p) const { return this->weak_from(p); } };
using Fn = void (*)();

// T: the type, B: a base of it or void, what is to know about it
template <typename T_, typename B_, bool Noted_, bool Copy_ = true, int Esf_ = 0> struct Desc {
    using T = T_; using B = B_;
    static constexpr bool noted = Noted_, copy = Copy_, has_base = !std::is_void_v<B_>;
    static constexpr int esf = Esf_;
};
template <typename P, int K> auto desc() {
    if constexpr (K == 0) return Desc<int, void, false>{};
    else if constexpr (K == 1) return Desc<Pod, void, false>{};
    else if constexpr (K == 2) return Desc<Dt, void, true>{};
    else if constexpr (K == 3) return Desc<Em, void, true>{};
    else if constexpr (K == 4) return Desc<EmT, void, false>{};
    else if constexpr (K == 5) return Desc<First, VB, true>{};
    else if constexpr (K == 6) return Desc<Second, VB, true>{};
    else if constexpr (K == 7) return Desc<Final, VB, true>{};
    else if constexpr (K == 8) return Desc<NonV, NB, true>{};
    else if constexpr (K == 9) return Desc<Over, NB, true>{};
    else if constexpr (K == 10) return Desc<Es<P>, void, true, true, 1>{};
    else if constexpr (K == 11) return Desc<Es2<P>, VB, true, true, 1>{};
    else if constexpr (K == 12) return Desc<Es3<P>, VB, true, true, 2>{};
    else if constexpr (K == 13) return Desc<Amp, void, true>{};
    else if constexpr (K == 14) return Desc<Virt, VB, true>{};
    else if constexpr (K == 15) return Desc<Un, void, false>{};
    else if constexpr (K == 16) return Desc<Big, void, true>{};
    else if constexpr (K == 17) return Desc<NoCopy, AB, true, false>{};
    else if constexpr (K == 18) return Desc<volatile int, void, false>{};
    else if constexpr (K == 19) return Desc<const Dt, void, true>{};
    else if constexpr (K == 20) return Desc<Arr, void, false>{};
    else if constexpr (K == 21) return Desc<En, void, false>{};
    else if constexpr (K == 22) return Desc<Fn, void, false>{};
    else if constexpr (K == 23) return Desc<Prot, ProtB, true>{};
    else if constexpr (K == 24) return Desc<Diamond, VB, true>{};
    else return Desc<const Es2<P>, const VB, true, true, 1>{};
}

struct Owner { Addr obj; bool custom; int deletes; int tag; size_t count; };
extern eng::hvec<Owner> owners;
struct Model { int owner = -1; Addr ptr = nullptr; };
inline bool operator==(const Model& a, const Model& b) { return a.owner == b.owner && a.ptr == b.ptr; }

void deleted(Addr p);            // a deleter which takes notes was called
void expect_mem(int tag, bool alive);

template <typename P, int K> struct World {
    using D = decltype(desc<P, K>());
    using T = typename D::T;
    using NT = std::remove_cv_t<T>;
    using B = std::conditional_t<D::has_base, typename D::B, const T>;
    using C = const volatile T;
    using V = const volatile void;
    template <typename X> using S = typename P::template sptr<X>;
    template <typename X> using W = typename P::template wptr<X>;
    template <typename X, typename De = xmem::default_delete<X>> using U = xmem::unique_ptr<X, De>;
    struct Del {
        int mark = 0x0DE1;
        void operator()(T* p) const { if (mark != 0x0DE1) eng::fail("%s: a deleter is used which is not alive", P::name); deleted(p); delete p; }
    };
    static void fdel(T* p) { deleted(p); delete p; }

    template <typename X> struct Sl { S<X> p; Model m; };
    template <typename X> struct Wl { W<X> p; Model m; };
    Sl<T> s[4]; Sl<B> bs[3]; Sl<C> cs[2]; Sl<V> vs[1];
    Wl<T> w[3]; Wl<B> bw[2]; Wl<C> cw[1];
    typename P::template storage<T> st; Model stm;
    U<T> un[2]; int unm[2] = {-1, -1};
    U<T, Del> ud[1]; int udm[1] = {-1};
    // arrays
    static constexpr bool arrays = D::esf == 0;
    using CT = const T;
    Sl<T[]> as[2]; Sl<CT[]> cas[1]; Wl<T[]> aw[1]; Wl<CT[]> caw[1];
    U<T[]> ua[1]; int uam[1] = {-1};
    T* imm[2];
    int next_tag = 1;

    static constexpr bool virtual_base = std::is_same_v<NT, Virt> || std::is_same_v<NT, Diamond>;

    static T* fresh() { ++ctx.objects; T* t; if constexpr (std::is_class_v<T>) t = new T; else t = new T(); ctx.made = t; return t; }
    int own(T* p, bool custom) { owners.push_back({p, custom, 0, next_tag, 1}); return int(owners.size()) - 1; }
    template <typename X> static Addr up(T* p) { return static_cast<X*>(p); }
    static T* tp(Addr a) { return static_cast<T*>(const_cast<void*>(a)); }

    template <typename F> void each_s(F f) { for (auto& x : s) f(x); for (auto& x : bs) f(x); for (auto& x : cs) f(x); for (auto& x : vs) f(x); }
    template <typename F> void each_w(F f) { for (auto& x : w) f(x); for (auto& x : bw) f(x); for (auto& x : cw) f(x); }
    int strong(int o) { int n = 0; if (o < 0) return 0; each_s([&](auto& x) { n += x.m.owner == o; }); n += stm.owner == o; for (auto& x : as) n += x.m.owner == o; n += cas[0].m.owner == o; return n; }
    int weak(int o) { int n = 0; each_w([&](auto& x) { n += x.m.owner == o; }); n += aw[0].m.owner == o; n += caw[0].m.owner == o; return n; }

    template <typename X> void check_s(Sl<X>& x, const char* op) {
        if (static_cast<Addr>(x.p.get()) != x.m.ptr) eng::fail("%s: type %d, after %s: get() is %p, expected %p", P::name, K, op, const_cast<void*>(static_cast<Addr>(x.p.get())), const_cast<void*>(x.m.ptr));
        if (bool(x.p) != (x.m.ptr != nullptr)) eng::fail("%s: type %d, after %s: operator bool", P::name, K, op);
        int n = strong(x.m.owner);
        if (x.p.use_count() != n) eng::fail("%s: type %d, after %s: use_count() is %ld, expected %d", P::name, K, op, x.p.use_count(), n);
        if (P::none(x.p) != (x.m.owner < 0)) eng::fail("%s: type %d, after %s: no_owner is %d", P::name, K, op, P::none(x.p));
        if (!P::same(x.p, s[0].p) != (x.m.owner != s[0].m.owner)) eng::fail("%s: type %d, after %s: same_owner", P::name, K, op);
        if constexpr (!std::is_void_v<X>) if (x.m.ptr) { auto&& r = *x.p; if (static_cast<Addr>(std::addressof(r)) != x.m.ptr) eng::fail("%s: type %d, after %s: operator*", P::name, K, op); if (static_cast<Addr>(x.p.operator->()) != x.m.ptr) eng::fail("%s: type %d, after %s: operator->", P::name, K, op); }
    }
    template <typename X> void check_w(Wl<X>& x, const char* op) {
        int n = strong(x.m.owner);
        if (x.p.use_count() != n || x.p.expired() != (n == 0)) eng::fail("%s: type %d, after %s: weak use_count() is %ld and expired() %d, expected %d owners", P::name, K, op, x.p.use_count(), x.p.expired(), n);
        if (P::none(x.p) != (x.m.owner < 0) || P::wbool(x.p) != (x.m.owner >= 0)) eng::fail("%s: type %d, after %s: weak no_owner or operator bool", P::name, K, op);
        if (!P::same(x.p, w[0].p) != (x.m.owner != w[0].m.owner)) eng::fail("%s: type %d, after %s: same_owner of weak pointers", P::name, K, op);
        if (x.m.owner >= 0 && !n) ctx.expired = true;
        auto l = x.p.lock();
        if (static_cast<Addr>(l.get()) != (n ? x.m.ptr : nullptr) || l.use_count() != (n ? n + 1 : 0)) eng::fail("%s: type %d, after %s: lock() gives %p with %ld owners, expected %p with %d", P::name, K, op, const_cast<void*>(static_cast<Addr>(l.get())), l.use_count(), const_cast<void*>(n ? x.m.ptr : nullptr), n ? n + 1 : 0);
    }
    void check(const char* op) {
        size_t noted = D::noted ? 2 : 0;
        for (size_t i = 0; i < owners.size(); ++i) {
            auto& o = owners[i];
            bool held = unm[0] == int(i) || unm[1] == int(i) || udm[0] == int(i) || uam[0] == int(i);
            bool alive = strong(int(i)) > 0 || held;
            bool is = false;
            if constexpr (D::noted) if (alive) { is = true; for (size_t k = 0; k < o.count; ++k) { Addr at = static_cast<const volatile Noted<NT>*>(static_cast<const volatile T*>(o.obj) + k); bool found = false; for (auto a : living) found |= a == at; is &= found; } }
            if (alive && D::noted && !is) eng::fail("%s: type %d, after %s: object %zu is destroyed while it is owned", P::name, K, op, i);
            if (alive && D::noted) noted += o.count;
            if (o.custom && o.deletes != !alive) eng::fail("%s: type %d, after %s: the deleter of object %zu was called %d times, and the object is %s", P::name, K, op, i, o.deletes, alive ? "owned" : "not owned");
            if (alive || !weak(int(i))) expect_mem(o.tag, alive);
        }
        if (D::noted && living.size() != noted) eng::fail("%s: type %d, after %s: %zu objects are alive, expected %zu", P::name, K, op, living.size(), noted);
        each_s([&](auto& x) { check_s(x, op); });
        each_w([&](auto& x) { check_w(x, op); });
        { auto l = st.load(); if (static_cast<Addr>(l.get()) != stm.ptr || l.use_count() != (stm.owner < 0 ? 0 : strong(stm.owner) + 1)) eng::fail("%s: type %d, after %s: the storage holds something else", P::name, K, op); }
        if constexpr (arrays) check_arrays(op);
        for (int i = 0; i < 2; ++i) if (static_cast<Addr>(un[i].get()) != (unm[i] < 0 ? nullptr : owners[size_t(unm[i])].obj)) eng::fail("xmem::unique_ptr: type %d, after %s: get()", K, op);
        if (static_cast<Addr>(ud[0].get()) != (udm[0] < 0 ? nullptr : owners[size_t(udm[0])].obj)) eng::fail("xmem::unique_ptr: type %d, after %s: get()", K, op);
    }

    template <typename X> void check_a(Sl<X>& x, const char* op) {
        int n = strong(x.m.owner);
        if (static_cast<Addr>(x.p.get()) != x.m.ptr || bool(x.p) != (x.m.ptr != nullptr) || x.p.use_count() != n || P::none(x.p) != (x.m.owner < 0)) eng::fail("%s: type %d, after %s: the pointer to an array is %p with %ld owners, expected %p with %d", P::name, K, op, const_cast<void*>(static_cast<Addr>(x.p.get())), x.p.use_count(), const_cast<void*>(x.m.ptr), n);
        if (!P::same(x.p, as[0].p) != (x.m.owner != as[0].m.owner)) eng::fail("%s: type %d, after %s: same_owner of arrays", P::name, K, op);
        if (x.m.ptr) for (size_t k = 0; k < owners[size_t(x.m.owner)].count; ++k) if (static_cast<Addr>(std::addressof(x.p[k])) != static_cast<const volatile T*>(x.m.ptr) + k) eng::fail("%s: type %d, after %s: element %zu of an array", P::name, K, op, k);
    }
    template <typename X> void check_aw(Wl<X>& x, const char* op) {
        int n = strong(x.m.owner);
        auto l = x.p.lock();
        if (static_cast<Addr>(l.get()) != (n ? x.m.ptr : nullptr) || l.use_count() != (n ? n + 1 : 0) || x.p.expired() != !n) eng::fail("%s: type %d, after %s: lock() of a pointer to an array", P::name, K, op);
    }
    void check_arrays(const char* op) {
        for (auto& x : as) check_a(x, op);
        check_a(cas[0], op);
        check_aw(aw[0], op);
        check_aw(caw[0], op);
        Addr e = uam[0] < 0 ? nullptr : owners[size_t(uam[0])].obj;
        if (static_cast<Addr>(ua[0].get()) != e || bool(ua[0]) != !!e) eng::fail("xmem::unique_ptr: type %d, after %s: get() of an array", K, op);
        if (e) for (size_t k = 0; k < owners[size_t(uam[0])].count; ++k) if (static_cast<Addr>(std::addressof(ua[0][k])) != static_cast<const volatile T*>(e) + k) eng::fail("xmem::unique_ptr: type %d, after %s: element %zu of an array", K, op, k);
    }
    struct ADel { int mark = 0x0DE2; void operator()(T* p) const { if (mark != 0x0DE2) eng::fail("%s: a deleter is used which is not alive", P::name); deleted(p); delete[] p; } };
    static T* fresh_array(size_t n) { ctx.objects += n; T* t; if constexpr (std::is_class_v<T>) t = new T[n]; else t = new T[n](); ctx.made = t; return t; }
    int own_array(T* p, size_t n, bool custom) { owners.push_back({p, custom, 0, next_tag, n}); return int(owners.size()) - 1; }
    void op_array_new(const uint8_t* o) {
        if constexpr (arrays) {
            ctx.array = true;
            track::Scope sc(true, ++next_tag);
            size_t n = 1 + o[3] % 5;
            auto& d = as[o[2] & 1];
            auto put = [&](T* t, bool custom) { d.m = {own_array(t, n, custom), t}; };
            switch (o[1] % 8) {
            case 0: { T* t = fresh_array(n); d.p = S<T[]>(t); put(t, false); break; }
            case 1: { T* t = fresh_array(n); d.p.reset(t); put(t, false); break; }
            case 2: { T* t = fresh_array(n); d.p = S<T[]>(t, ADel{}); put(t, true); break; }
            case 3: { T* t = fresh_array(n); U<T[]> u(t); d.p = std::move(u); put(t, false); break; }
            case 4: { T* t = fresh_array(n); U<T[]> u(t); S<CT[]> c(std::move(u)); cas[0].p = std::move(c); cas[0].m = {own_array(t, n, false), t}; break; }
            case 5: { T* t = fresh_array(n); ua[0].reset(t); uam[0] = own_array(t, n, false); break; }
            case 6: { T* t = fresh_array(n); U<T[]> u(t); ua[0] = std::move(u); uam[0] = own_array(t, n, false); break; }
            default: { if constexpr (!std::is_const_v<T>) { ctx.objects += n; U<T[]> u = xmem::make_unique<T[]>(n); T* t = u.get(); ua[0] = std::move(u); uam[0] = own_array(t, n, false); } break; }
            }
        }
        else (void)o;
    }
    void op_array(const uint8_t* o) {
        if constexpr (arrays) {
            auto& a = as[o[2] & 1]; auto& b = as[o[3] & 1];
            switch (o[1] % 14) {
            case 0: copy_(a, b, o[4]); break;
            case 1: move_(a, b, o[4]); break;
            case 2: copy_(cas[0], b, o[4]); break;
            case 3: move_(cas[0], b, o[4]); break;
            case 4: reset_(a, o[4]); break;
            case 5: swap_(a, b, o[4]); break;
            case 6: weak_(aw[0], a, o[4]); break;
            case 7: weak_(caw[0], a, o[4]); break;
            case 8: wcopy_(caw[0], aw[0], o[4]); break;
            case 9: wmove_(caw[0], aw[0], o[4]); break;
            case 10: lock_(a, aw[0], o[4]); break;
            case 11: lock_(cas[0], caw[0], o[4]); break;
            case 12: // a pointer to an element
                if (a.m.ptr) { ctx.alias = true; size_t k = o[4] % owners[size_t(a.m.owner)].count; T* t = std::addressof(a.p[k]); auto& d = s[o[5] % 4]; d.p = o[6] & 1 ? S<T>(a.p, t) : P::aliased(a.p, t); d.m = {a.m.owner, t}; }
                break;
            default:
                if (uam[0] < 0) break;
                if (o[4] & 1) { ua[0].reset(); uam[0] = -1; }
                else if (o[4] & 2) { U<T[]> u(ua[0].release()); ua[0] = nullptr; U<T[]> v(std::move(u)); ua[0].swap(v); }
                else if (ctx.refuse) { ua[0] = nullptr; uam[0] = -1; }
                else { int id = uam[0]; track::Scope sc(true, owners[size_t(id)].tag); a.p = std::move(ua[0]); uam[0] = -1; a.m = {id, owners[size_t(id)].obj}; }
                break;
            }
        }
        else (void)o;
    }
    // which shared pointers can become which others
    template <typename F> void with_pair(uint8_t a, uint8_t b, F f) {
        switch (a % 8) {
        case 0: case 1: case 2: return f(s[a / 8 % 4], s[b % 4]);
        case 3: return f(bs[a / 8 % 3], s[b % 4]);
        case 4: return f(bs[a / 8 % 3], bs[b % 3]);
        case 5: return f(cs[a / 8 % 2], s[b % 4]);
        case 6: return f(cs[a / 8 % 2], cs[b % 2]);
        default:
            switch (b % 3) { case 0: return f(vs[0], s[b / 3 % 4]); case 1: return f(vs[0], bs[b / 3 % 3]); default: return f(vs[0], cs[b / 3 % 2]); }
        }
    }
    template <typename F> void with_weak_pair(uint8_t a, uint8_t b, F f) {
        switch (a % 6) {
        case 0: case 1: return f(w[a / 6 % 3], w[b % 3]);
        case 2: return f(bw[a / 6 % 2], w[b % 3]);
        case 3: return f(bw[a / 6 % 2], bw[b % 2]);
        case 4: return f(cw[0], w[b % 3]);
        default: return f(cw[0], cw[0]);
        }
    }
    template <typename F> void with_s(uint8_t a, F f) { switch (a % 8) { case 0: case 1: case 2: case 3: return f(s[a % 4]); case 4: case 5: return f(bs[a / 8 % 3]); case 6: return f(cs[a / 8 % 2]); default: return f(vs[0]); } }
    template <typename F> void with_w(uint8_t a, F f) { switch (a % 5) { case 0: case 1: case 2: return f(w[a % 3]); case 3: return f(bw[a / 5 % 2]); default: return f(cw[0]); } }

    // the address a conversion gives: of a living object
    template <typename X, typename Y> Addr converted(Addr a) {
        using Src = std::remove_cv_t<Y>; using Dst = std::remove_cv_t<X>;
        if constexpr (std::is_same_v<Src, Dst> || std::is_void_v<Dst>) return a;
        else { auto y = static_cast<const volatile Y*>(a); return static_cast<const volatile X*>(y); }
    }
    template <typename X, typename Y> Model conv(const Model& m) { if constexpr (std::is_array_v<X>) { if (!std::is_same_v<X, Y>) ctx.conv = true; return m; } else { if (!std::is_same_v<X, Y>) ctx.conv = true; return {m.owner, m.ptr ? converted<X, Y>(m.ptr) : nullptr}; } }

    void op_new(const uint8_t* o) {
        track::Scope sc(true, ++next_tag);
        int d = o[2] % 4;
        auto put = [&](auto&& made, bool custom) { T* t = tp(converted<T, T>(made.get())); int id = own(t, custom); s[d].p = std::move(made); s[d].m = {id, t}; };
        switch (o[1] % 14) {
        case 0: ++ctx.objects; put(P::template make<T>(), false); break;
        case 1: put(S<T>(fresh()), false); break;
        case 2: put(S<T>(fresh(), Del{}), true); break;
        case 3: put(S<T>(fresh(), &fdel), true); break;
        case 4: put(S<T>(fresh(), [](T* p) { deleted(p); delete p; }), true); break;
        case 5: { U<T> u(fresh()); put(S<T>(std::move(u)), false); break; }
        case 6: { U<T, Del> u(fresh()); put(S<T>(std::move(u)), true); break; }
        case 7: { T* t = fresh(); auto& x = bs[d % 3]; x.p = S<B>(t); int id = own(t, false); x.m = {id, up<B>(t)}; break; }
        case 8: { T* t = fresh(); auto& x = bs[d % 3]; x.p.reset(t, Del{}); int id = own(t, true); x.m = {id, up<B>(t)}; break; }
        case 9: { T* t = fresh(); s[d].p.reset(t); int id = own(t, false); s[d].m = {id, t}; break; }
        case 10: { T* t = fresh(); s[d].p.reset(t, Del{}); int id = own(t, true); s[d].m = {id, t}; break; }
        case 11: ++ctx.objects; put(P::template make_ow<T>(), false); break;
        case 12: { T* t = fresh(); auto& x = cs[d % 2]; x.p = S<C>(t); int id = own(t, false); x.m = {id, t}; break; }
        default:
            if constexpr (D::copy && !std::is_volatile_v<T>) { ++ctx.objects; put(P::template make<T>(*imm[o[3] & 1]), false); }
            break;
        }
    }
    void op_cast(const uint8_t* o) {
        ctx.cast = true;
        int d = o[1] % 4;
        switch (o[2] % 5) {
        case 0: { auto& x = cs[o[3] % 2]; auto m = x.m; s[d].p = P::template ccast<T>(x.p); s[d].m = m.owner < 0 ? Model{} : m; break; }
        case 1: {
            auto& x = bs[o[3] % 3];
            if constexpr (!virtual_base) { auto m = x.m; Addr a = m.ptr ? static_cast<Addr>(static_cast<T*>(const_cast<std::remove_const_t<B>*>(static_cast<B*>(const_cast<void*>(m.ptr))))) : nullptr; if constexpr (std::is_const_v<B> && !std::is_const_v<T>) s[d].p = P::template ccast<T>(P::template scast<const T>(x.p)); else s[d].p = P::template scast<T>(x.p); s[d].m = m.owner < 0 ? Model{} : Model{m.owner, a}; }
            break;
        }
        case 2: {
            auto& x = bs[o[3] % 3];
            if constexpr (D::has_base && std::is_polymorphic_v<typename D::B>) { auto m = x.m; Addr a = m.ptr ? static_cast<Addr>(dynamic_cast<T*>(static_cast<B*>(const_cast<void*>(m.ptr)))) : nullptr; s[d].p = P::template dcast<T>(x.p); s[d].m = m.owner < 0 || !a ? Model{} : Model{m.owner, a}; }
            break;
        }
        case 3: { auto& x = s[o[3] % 4]; auto m = x.m; bs[d % 3].p = P::template scast<B>(x.p); bs[d % 3].m = m.owner < 0 ? Model{} : conv<B, T>(m); break; }
        default: { auto& x = s[o[3] % 4]; auto m = x.m; vs[0].p = P::template scast<V>(x.p); vs[0].m = m.owner < 0 ? Model{} : m; break; }
        }
    }
    void op_esf(const uint8_t* o) {
        if constexpr (D::esf != 0) {
            ctx.esf = true;
            auto& x = s[o[1] % 4];
            T* t = x.p.get();
            if (!t) t = imm[0];
            if (o[2] & 8) t = imm[o[2] >> 4 & 1];
            int id = -1;
            for (size_t i = 0; i < owners.size(); ++i) if (owners[i].obj == t && strong(int(i))) id = int(i);
            auto& d = s[o[3] % 4]; auto& e = w[o[4] % 3];
            if constexpr (D::esf == 1) {
                if (o[2] & 1) { S<T> r = t->shared_from_this(); d.p = std::move(r); d.m = id < 0 ? Model{} : Model{id, t}; }
                else { W<T> r = t->weak_from_this(); e.p = std::move(r); e.m = id < 0 ? Model{} : Model{id, t}; }
            }
            else {
                if (o[2] & 1) { S<T> r = t->of(t); d.p = std::move(r); d.m = id < 0 ? Model{} : Model{id, t}; }
                else if (o[2] & 2) { W<T> r = t->wof(t); e.p = std::move(r); e.m = id < 0 ? Model{} : Model{id, t}; }
                else { auto r = t->self(); if (static_cast<Addr>(r.get()) != (id < 0 ? nullptr : t) || r.use_count() != (id < 0 ? 0 : strong(id) + 1)) eng::fail("%s: type %d: shared_from_this() gives %p with %ld owners", P::name, K, r.get(), r.use_count()); }
            }
        }
        else (void)o;
    }
    // ---- copies, moves, swaps ----
    template <typename X, typename Y> void copy_(Sl<X>& d, Sl<Y>& x, int how) {
        Model m = conv<X, Y>(x.m);
        bool self = static_cast<const void*>(&d) == static_cast<const void*>(&x);
        if (self) how = 0;
        switch (how % 4) {
        case 0: d.p = x.p; break;
        case 1: { S<X> t(x.p); d.p = std::move(t); break; }
        case 2: { S<X> t(x.p); d.p.swap(t); break; }
        default: again(d.p, x.p); break;
        }
        d.m = m;
    }
    template <typename X, typename Y> void move_(Sl<X>& d, Sl<Y>& x, int how) {
        Model m = conv<X, Y>(x.m);
        bool self = static_cast<const void*>(&d) == static_cast<const void*>(&x);
        switch (how % 4) {
        case 0: d.p = std::move(x.p); break;
        case 1: { S<X> t(std::move(x.p)); if (x.p || !P::none(x.p)) eng::fail("%s: type %d: moved from, but not empty", P::name, K); d.p = std::move(t); break; }
        case 2: { S<X> t(std::move(x.p)); d.p.swap(t); break; }
        default: if (self) d.p = std::move(x.p); else again(d.p, std::move(x.p)); break;
        }
        x.m = {};
        d.m = m;
    }
    template <typename Q, typename A> static void again(Q& q, A&& a) { q.~Q(); new (static_cast<void*>(std::addressof(q))) Q(std::forward<A>(a)); }
    template <typename X> void reset_(Sl<X>& x, int how) {
        switch (how % 5) {
        case 0: x.p.reset(); break;
        case 1: x.p = nullptr; break;
        case 2: x.p = S<X>(); break;
        case 3: x.p.reset(nullptr); break;
        default: { S<X> t(std::move(x.p)); break; }
        }
        x.m = {};
    }
    template <typename X> void swap_(Sl<X>& a, Sl<X>& b, int how) {
        if (how & 1) std::swap(a.p, b.p); else a.p.swap(b.p);
        std::swap(a.m, b.m);
    }
    // ---- weak pointers ----
    template <typename X, typename Y> void weak_(Wl<X>& d, Sl<Y>& x, int how) {
        Model m = conv<X, Y>(x.m);
        switch (how % 3) {
        case 0: d.p = x.p; break;
        case 1: { W<X> t(x.p); d.p = std::move(t); break; }
        default: again(d.p, x.p); break;
        }
        d.m = m;
        ctx.weak = true;
    }
    template <typename X, typename Y> Model wconv(const Model& m) { return strong(m.owner) ? conv<X, Y>(m) : Model{m.owner, nullptr}; }
    template <typename X, typename Y> void wcopy_(Wl<X>& d, Wl<Y>& x, int how) {
        Model m = wconv<X, Y>(x.m);
        bool self = static_cast<const void*>(&d) == static_cast<const void*>(&x);
        if (self) how = 0;
        switch (how % 4) {
        case 0: d.p = x.p; break;
        case 1: { W<X> t(x.p); d.p = std::move(t); break; }
        case 2: { W<X> t(x.p); d.p.swap(t); break; }
        default: again(d.p, x.p); break;
        }
        d.m = m;
    }
    template <typename X, typename Y> void wmove_(Wl<X>& d, Wl<Y>& x, int how) {
        Model m = wconv<X, Y>(x.m);
        bool self = static_cast<const void*>(&d) == static_cast<const void*>(&x);
        switch (how % 3) {
        case 0: d.p = std::move(x.p); break;
        case 1: { W<X> t(std::move(x.p)); if (x.p || !P::none(x.p)) eng::fail("%s: type %d: weak pointer moved from, but not empty", P::name, K); d.p = std::move(t); break; }
        default: if (self) d.p = std::move(x.p); else again(d.p, std::move(x.p)); break;
        }
        x.m = {};
        d.m = m;
    }
    template <typename X, typename Y> void lock_(Sl<X>& d, Wl<Y>& x, int how) {
        Model m = strong(x.m.owner) ? conv<X, Y>(x.m) : Model{};
        if (how & 1) { S<X> t = x.p.lock(); d.p = t; }
        else d.p = x.p.lock();
        d.m = m;
    }
    // ---- pointers to other objects ----
    T* target(int what) { switch (what % 3) { case 0: return imm[0]; case 1: return imm[1]; default: return nullptr; } }
    template <typename X> void alias_(Sl<X>& x, const uint8_t* o) {
        if (x.m.owner < 0) return;
        T* t = target(o[3]);
        int id = x.m.owner;
        ctx.alias = true;
        switch (o[2] % 7) {
        case 0: { auto& d = s[o[4] % 4]; d.p = P::aliased(x.p, t); d.m = {id, t}; break; }
        case 1: { auto& d = bs[o[4] % 3]; B* b = t; d.p = P::aliased(x.p, b); d.m = {id, b}; break; }
        case 2: { auto& d = vs[0]; V* v = t; d.p = S<V>(x.p, v); d.m = {id, t}; break; }
        case 3: { auto& d = w[o[4] % 3]; d.p = W<T>(x.p, t); d.m = {id, t}; ctx.weak = true; break; }
        case 4: { auto& d = bw[o[4] % 2]; B* b = t; d.p = W<B>(x.p, b); d.m = {id, b}; ctx.weak = true; break; }
        case 5: { auto& d = cs[o[4] % 2]; C* c = t; d.p = S<C>(x.p, c); d.m = {id, t}; break; }
        default: { auto& d = w[o[4] % 3]; auto& e = w[o[5] % 3]; int wid = e.m.owner; W<T> a(e.p, t); d.p = a; d.m = wid < 0 ? Model{} : Model{wid, t}; break; }
        }
    }
    // ---- storage ----
    void op_storage(const uint8_t* o) {
        ctx.storage = true;
        auto& a = s[o[1] % 4]; auto& b = s[o[2] % 4];
        switch (o[0] % NOPS) {
        case STORE:
            if (o[3] & 1) { st.store(std::move(a.p)); stm = a.m; a.m = {}; } else { st.store(a.p); stm = a.m; }
            break;
        case EXCH: { Model m = stm; if (o[3] & 1) { Model g = a.m; a.m = {}; b.p = st.exchange(std::move(a.p)); stm = g; b.m = m; } else { Model g = a.m; b.p = st.exchange(a.p); stm = g; b.m = m; } break; }
        default: {
            if (o[3] & 1) { a.p = st.load(); a.m = stm; }
            bool want = stm.ptr == a.m.ptr;
            Model old = stm, g = b.m;
            bool got = st.compare_exchange(a.p, b.p);
            if (got != want) eng::fail("%s: type %d: compare_exchange gives %d", P::name, K, got);
            if (want) stm = g; else a.m = old;
            break;
        }
        }
    }
    // ---- unique pointers ----
    void op_uniq(const uint8_t* o) {
        ctx.uniq = true;
        int i = o[1] & 1;
        track::Scope sc(true, ++next_tag);
        switch (o[2] % 8) {
        case 0: { T* t = fresh(); int id = own(t, false); un[i].reset(t); unm[i] = id; break; }
        case 1: { T* t = fresh(); int id = own(t, true); ud[0].reset(t); udm[0] = id; break; }
        case 2: { int m = unm[1 - i]; un[i] = std::move(un[1 - i]); unm[1 - i] = -1; unm[i] = m; break; }
        case 3: un[i].reset(); unm[i] = -1; break;
        case 4: un[0].swap(un[1]); std::swap(unm[0], unm[1]); break;
        case 5: { U<T> t(un[i].release()); un[i] = std::move(t); break; }
        case 6: ud[0] = nullptr; udm[0] = -1; break;
        default: { ++ctx.objects; U<T> t = xmem::make_unique<T>(); int id = own(t.get(), false); un[i] = std::move(t); unm[i] = id; break; }
        }
    }
    void op_handover(const uint8_t* o) {
        int i = o[1] % 3;
        int id = i == 2 ? udm[0] : unm[i];
        if (id < 0) return;
        track::Scope sc(true, owners[size_t(id)].tag);
        T* t = i == 2 ? ud[0].get() : un[i].get();
        auto give = [&](auto& d, Addr a) {
            auto to = [&](auto& u) { using Q = std::remove_reference_t<decltype(d.p)>; if (o[3] & 1) { Q q(std::move(u)); d.p = std::move(q); } else d.p = std::move(u); };
            if (i == 2) { to(ud[0]); udm[0] = -1; } else { to(un[i]); unm[i] = -1; }
            d.m = {id, a};
        };
        if (o[2] & 1) give(s[o[4] % 4], t);
        else give(bs[o[4] % 3], up<B>(t));
    }
    template <typename X> void temp_(Sl<X>& x) {
        S<X> t(x.p);
        W<X> u(t), v;
        v = u;
        W<X> y(std::move(u));
        { auto l = y.lock(); S<const volatile X> c(l); W<const volatile X> cw2(c), cw3(y); S<const volatile void> e(cw3.lock()); if (static_cast<Addr>(e.get()) != x.m.ptr && x.m.owner >= 0) eng::fail("%s: type %d: conversions give another address", P::name, K); }
        if (!(t == x.p) || t != x.p || !(t == v.lock() || x.m.owner < 0)) eng::fail("%s: type %d: a copy differs", P::name, K);
        S<X> z(std::move(t));
        auto& zz = z; z = zz;
        z = std::move(zz);
    }

    // many objects at once, which go in some order
    void op_many(const uint8_t* o) {
        track::Scope sc(true, ++next_tag);
        size_t n = o[2] % 8 == 0 && !ctx.faults ? 300 + size_t(o[3]) * 4 : 2 + o[3] % 64;
        if (std::is_same_v<NT, Big> && n > 300) n = 300;
        eng::hvec<S<T>> p; eng::hvec<W<T>> q; eng::hvec<uint32_t> left;
        p.reserve(n); q.reserve(n);
        size_t before = living.size();
        uint32_t x = uint32_t(o[4]) * 0x01000193u + o[6] + 1;
        for (size_t i = 0; i < n; ++i) {
            switch ((o[1] + (o[1] & 64 ? i : 0)) % 3) { case 0: ++ctx.objects; p.push_back(P::template make<T>()); break; case 1: p.push_back(S<T>(fresh())); break; default: { U<T> u(fresh()); p.push_back(S<T>(std::move(u))); break; } }
            q.push_back(W<T>(p[i]));
            left.push_back(uint32_t(i));
        }
        if (n > 200) ctx.many = true;
        auto ok = [&](size_t i) { auto l = q[i].lock(); if (l.get() != p[i].get() || !l || l.use_count() != 2 || !P::same(l, p[i])) eng::fail("%s: type %d: one of %zu objects is owned by %ld pointers, not by two", P::name, K, n, l.use_count()); };
        for (size_t i = 0; i < n; ++i) ok(i);
        while (!left.empty()) {
            x = x * 1664525u + 1013904223u;
            size_t k = (x >> 8) % left.size(), i = left[k];
            left[k] = left.back(); left.pop_back();
            if (x & 128) p[i].reset(); else { S<T> t(std::move(p[i])); S<B> b(std::move(t)); }
            if (!q[i].expired() || q[i].lock()) eng::fail("%s: type %d: one of %zu objects is not gone", P::name, K, n);
            if (x & 64) q[i].reset();
            if (!left.empty()) ok(left[(x >> 16) % left.size()]);
            if (D::noted && living.size() != before + left.size()) eng::fail("%s: type %d: of %zu objects %zu should be alive, %zu are", P::name, K, n, left.size(), living.size() - before);
        }
        q.clear();
        expect_mem(next_tag, false);
    }
    // an operation which may run out of memory: then nothing has happened, but the object given is gone
    template <typename F> void guarded(const uint8_t* o, bool custom, bool gives, F f) {
        auto& ts = track::st;
        ctx.made = nullptr; ctx.lost = 0;
        ts.fired = false;
        ts.fail_in = ctx.faults && (o[5] & 1) ? 1 + (o[5] >> 1 & 1) : 0;
        ctx.failing = ts.fail_in != 0;
        bool threw = false;
        try { f(); } catch (const std::bad_alloc&) { threw = true; }
        ts.fail_in = 0;
        ctx.failing = false;
        if (threw != ts.fired) eng::fail("%s: type %d: %s", P::name, K, threw ? "an exception out of nothing" : "memory could not be had, but nothing was thrown");
        if (ctx.lost != (threw && ctx.made && custom)) eng::fail("%s: type %d: the deleter of an object which could not be adopted is called %d times", P::name, K, ctx.lost);
        if (!threw) return;
        ctx.failed = true;
        if (gives) expect_mem(next_tag, false);
    }
    void exec(const uint8_t* o) {
        bool makes = o[0] % NOPS == NEW || o[0] % NOPS == UNIQ || o[0] % NOPS == HANDOVER || o[0] % NOPS == ARRNEW || o[0] % NOPS == MANY;
        track::st.forbid = ctx.refuse && !makes;
        exec_(o);
        track::st.forbid = false;
    }
    void exec_(const uint8_t* o) {
        switch (o[0] % NOPS) {
        case NEW: { int how = o[1] % 14; guarded(o, how == 2 || how == 3 || how == 4 || how == 6 || how == 8 || how == 10, true, [&] { op_new(o); }); break; }
        case COPY: with_pair(o[1], o[2], [&](auto& d, auto& x) { copy_(d, x, o[3]); }); break;
        case MOVE: with_pair(o[1], o[2], [&](auto& d, auto& x) { move_(d, x, o[3]); }); break;
        case RESET: with_s(o[1], [&](auto& x) { reset_(x, o[3]); }); break;
        case SWAP: if (o[1] & 1) swap_(s[o[2] % 4], s[o[3] % 4], o[4]); else if (o[1] & 2) swap_(bs[o[2] % 3], bs[o[3] % 3], o[4]); else swap_(cs[o[2] % 2], cs[o[3] % 2], o[4]); break;
        case WEAK:
            switch (o[1] % 6) {
            case 0: case 1: weak_(w[o[2] % 3], s[o[3] % 4], o[4]); break;
            case 2: weak_(bw[o[2] % 2], s[o[3] % 4], o[4]); break;
            case 3: weak_(bw[o[2] % 2], bs[o[3] % 3], o[4]); break;
            case 4: weak_(cw[0], s[o[3] % 4], o[4]); break;
            default: weak_(cw[0], cs[o[3] % 2], o[4]); break;
            }
            break;
        case WCOPY: with_weak_pair(o[1], o[2], [&](auto& d, auto& x) { wcopy_(d, x, o[3]); }); break;
        case WMOVE: with_weak_pair(o[1], o[2], [&](auto& d, auto& x) { wmove_(d, x, o[3]); }); break;
        case WRESET: with_w(o[1], [&](auto& x) { x.p.reset(); x.m = {}; }); break;
        case WSWAP: if (o[1] & 1) { auto& a = w[o[2] % 3]; auto& b = w[o[3] % 3]; a.p.swap(b.p); std::swap(a.m, b.m); } else { bw[0].p.swap(bw[1].p); std::swap(bw[0].m, bw[1].m); } break;
        case LOCK:
            switch (o[1] % 5) {
            case 0: lock_(s[o[2] % 4], w[o[3] % 3], o[4]); break;
            case 1: lock_(bs[o[2] % 3], w[o[3] % 3], o[4]); break;
            case 2: lock_(bs[o[2] % 3], bw[o[3] % 2], o[4]); break;
            case 3: lock_(cs[o[2] % 2], cw[0], o[4]); break;
            default: lock_(vs[0], w[o[3] % 3], o[4]); break;
            }
            break;
        case ALIAS: with_s(o[1], [&](auto& x) { alias_(x, o); }); break;
        case CAST: op_cast(o); break;
        case ESF: op_esf(o); break;
        case STORE: case EXCH: case CAS: op_storage(o); break;
        case UNIQ: guarded(o, false, true, [&] { op_uniq(o); }); break;
        case HANDOVER: guarded(o, false, false, [&] { op_handover(o); }); break;
        case ARRNEW: guarded(o, o[1] % 8 == 2, true, [&] { op_array_new(o); }); break;
        case ARR: op_array(o); break;
        case MANY: guarded(o, false, true, [&] { op_many(o); }); break;
        case TEMP: with_s(o[1], [&](auto& x) { temp_(x); }); break;
        }
    }
    void run(const uint8_t* d, size_t n) {
        for (auto& i : imm) { track::Scope off(false, 0); i = fresh(); }
        check("nothing");
        for (size_t i = 0; i + OP <= n; i += OP) {
            if (eng::verbose()) fprintf(stderr, "%s, type %d: %s\n", P::name, K, op_name(d[i]));
            exec(d + i);
            check(op_name(d[i]));
        }
        each_s([&](auto& x) { x.p.reset(); x.m = {}; });
        { auto l = st.exchange(nullptr); stm = {}; }
        for (int i = 0; i < 2; ++i) { un[i].reset(); unm[i] = -1; }
        ud[0].reset(); udm[0] = -1;
        if constexpr (arrays) { for (auto& x : as) { x.p.reset(); x.m = {}; } cas[0].p.reset(); cas[0].m = {}; ua[0].reset(); uam[0] = -1; }
        check("the release of all");
        each_w([&](auto& x) { x.p.reset(); x.m = {}; });
        if constexpr (arrays) { aw[0].p.reset(); aw[0].m = {}; caw[0].p.reset(); caw[0].m = {}; }
        check("the release of all weak pointers");
        for (auto& i : imm) { delete i; i = nullptr; }
    }
};
template <typename P, int K> void run_type(const uint8_t* d, size_t n) {
    { track::st.on = true; World<P, K> w; w.run(d, n); }
    track::st.on = false;
    if (track::st.live) { char b[100]; track::describe_live(b, sizeof(b)); eng::fail("%s: type %d: memory remains: %s", P::name, K, b); }
    if (!living.empty()) eng::fail("%s: type %d: objects remain", P::name, K);
}
} // namespace ty
