// C18: make functions construct exactly the object asked for, once. C17: so do the ones of xstd.
#include "misc.hpp"
#include "track.hpp"
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include <utility>
#include <initializer_list>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/std_helpers.hpp>

namespace {
// ---- the things made, which take notes ----
enum Cat : uint8_t { LV, CLV, RV, CRV, VLV };
const char* cat_name(int c) { static const char* n[] = {"lvalue", "const lvalue", "rvalue", "const rvalue", "volatile lvalue"}; return n[c % 5]; }
struct Stats { int ctor = 0, dflt = 0, copy = 0, move = 0, assign = 0, dtor = 0; };
Stats rec_stats, arg_stats;

struct Arg {
    int id; bool moved = false;
    explicit Arg(int i) : id(i) {}
    Arg(const Arg& o) : id(o.id) { ++arg_stats.copy; }
    Arg(Arg&& o) noexcept : id(o.id) { o.moved = true; ++arg_stats.move; }
    Arg& operator=(const Arg&) = delete;
};
template <typename T> constexpr Cat cat_of() {
    using U = std::remove_reference_t<T>;
    if (std::is_volatile_v<U>) return VLV;
    if (std::is_lvalue_reference_v<T>) return std::is_const_v<U> ? CLV : LV;
    return std::is_const_v<U> ? CRV : RV;
}
struct Note { const volatile void* p; Cat c; };
struct Rec {  // notes how its arguments come
    int n = -1;
    Note note[4] = {};
    uint32_t magic = 0x5EC0;
    Rec() : n(0) { ++rec_stats.dflt; }
    Rec(const Rec& o) : n(o.n) { ++rec_stats.copy; }
    Rec(Rec&& o) noexcept : n(o.n) { ++rec_stats.move; o.n = -7; }
    Rec& operator=(const Rec&) { ++rec_stats.assign; return *this; }
    template <typename... A, typename = std::enable_if_t<(sizeof...(A) > 0) && (std::is_same_v<std::remove_cv_t<std::remove_reference_t<A>>, Arg> && ...)>>
    explicit Rec(A&&... a) : n(int(sizeof...(A))) { ++rec_stats.ctor; int i = 0; ((note[i++] = Note{&a, cat_of<A&&>()}), ...); }
    ~Rec() { ++rec_stats.dtor; if (magic != 0x5EC0) eng::fail("destructor of a recorder runs on something else"); magic = 0; }
};
struct ByValue {  // takes a copy, a reference, a const reference and an rvalue
    int sum; Arg* r;
    ByValue(Arg a, Arg& b, const Arg& c, Arg&& d) : sum(a.id + 10 * b.id + 100 * c.id + 1000 * d.id), r(&b) { ++rec_stats.ctor; b.id += 50; Arg taken(std::move(d)); (void)taken; }
    ByValue(const ByValue&) = delete;
    ~ByValue() { ++rec_stats.dtor; }
};
struct Brace {  // tells T(a, b) from T{a, b}, and explicit constructors from implicit ones
    int how;
    explicit Brace(int, int) : how(1) {}
    Brace(std::initializer_list<int>) : how(2) {}
    explicit Brace(double) : how(3) {}
};
struct Pod { int a; double d; void* p; char c[13]; };
struct Big { unsigned char b[3000]; };
struct alignas(64) Over { int a; char c[70]; };
struct Mixed { int a; std::string s; int b[5]; };                  // implicit constructor which is not trivial: values are zeroed first
struct User { int a = 7; int untouched; User() { ++rec_stats.dflt; } ~User() { ++rec_stats.dtor; } };
struct Base { int x = 4; virtual ~Base() = default; };
struct Derived : Base { int y; };
union Uni { int i; double d; };
enum class En : short { zero, one };
struct MoveOnly { int v; bool from = false; explicit MoveOnly(int i) : v(i) {} MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.from = true; ++rec_stats.move; } };
struct CopyOnly { int v; explicit CopyOnly(int i) : v(i) {} CopyOnly(const CopyOnly& o) : v(o.v) { ++rec_stats.copy; } };

// types which redefine what the makers themselves use
struct Amp {  // has no address for those who ask with &
    int v; int* none = nullptr;
    explicit Amp(int i = 3) : v(i) {}
    int* operator&() { return none; }
    const int* operator&() const { return none; }
    template <typename X> friend void operator,(const Amp&, X&&) { eng::fail("an overloaded comma is used"); }
};
struct AmpSame { int v; explicit AmpSame(int i = 3) : v(i) {} AmpSame* operator&() { return nullptr; } const AmpSame* operator&() const { return nullptr; } };
struct OwnStats { int n = 0, d = 0, an = 0, ad = 0; } own_stats;
struct Own {  // has its own memory
    int v;
    explicit Own(int i = 3) : v(i) {}
    static void* operator new(size_t n) { ++own_stats.n; return ::operator new(n); }
    static void operator delete(void* p) { ++own_stats.d; ::operator delete(p); }
    static void* operator new[](size_t n) { ++own_stats.an; return ::operator new[](n); }
    static void operator delete[](void* p) { ++own_stats.ad; ::operator delete[](p); }
};
struct OwnDel : Own { AmpSame* operator&() { return nullptr; } void operator()(Rec* p) const { if (v != 9) eng::fail("a deleter of another value is called"); delete p; } };
struct MoDel {  // can only be moved, and is of use only once
    int v; int* calls;
    MoDel(int v, int* c) : v(v), calls(c) {}
    MoDel(MoDel&& o) noexcept : v(o.v), calls(o.calls) { o.v = -1; o.calls = nullptr; }
    MoDel& operator=(MoDel&& o) noexcept { v = o.v; calls = o.calls; o.v = -1; o.calls = nullptr; return *this; }
    void operator()(Rec* p) { if (!calls || !p || p->n != v) eng::fail("a deleter of another value is called"); ++*calls; delete p; }
};
struct VirtDel {  // is copied as what it is
    int* calls;
    explicit VirtDel(int* c) : calls(c) {}
    VirtDel(const VirtDel&) = default;
    virtual ~VirtDel() = default;
    virtual void operator()(Rec* p) { ++*calls; delete p; }
};

// types of all sorts: with a default constructor or without, with a destructor or none, moved without throwing or perhaps not, assignable or not
enum { V_DEFAULT = 1, V_DTOR = 2, V_NOEXCEPT = 4, V_ASSIGN = 8, V_BIG = 16, V_ALL = 32 };
template <bool> struct VDefault { VDefault() = default; explicit VDefault(int) {} };
template <> struct VDefault<false> { explicit VDefault(int) {} };
template <bool> struct VDtor {};
template <> struct VDtor<true> { ~VDtor() { ++rec_stats.dtor; } };
template <bool> struct VAssign {};
template <> struct VAssign<false> { VAssign() = default; VAssign(const VAssign&) {} VAssign& operator=(const VAssign&) = delete; };
template <bool NT> struct VCore {
    enum How : uint8_t { NONE, VALUE, COPY, MOVE, ASSIGN };
    int v; How how;
    VCore() : v(-1), how(NONE) { ++rec_stats.dflt; }
    explicit VCore(int i) : v(i), how(VALUE) {}
    VCore(const VCore& o) : v(o.v), how(COPY) { ++rec_stats.copy; }
    VCore(VCore&& o) noexcept(NT) : v(o.v), how(MOVE) { o.v = -9; ++rec_stats.move; }
    VCore& operator=(const VCore& o) noexcept(NT) { v = o.v; how = ASSIGN; ++rec_stats.assign; return *this; }
    VCore& operator=(VCore&& o) noexcept(NT) { v = o.v; how = ASSIGN; o.v = -9; ++rec_stats.assign; return *this; }
};
template <bool> struct VSize {};
template <> struct VSize<true> { char room[200] = {}; };
template <int F> struct Var : VDefault<(F & V_DEFAULT) != 0>, VDtor<(F & V_DTOR) != 0>, VAssign<(F & V_ASSIGN) != 0>, VCore<(F & V_NOEXCEPT) != 0>, VSize<(F & V_BIG) != 0> {
    using Core = VCore<(F & V_NOEXCEPT) != 0>;
    template <int G = F, typename = std::enable_if_t<(G & V_DEFAULT) != 0>> Var() : VDefault<true>(), Core() {}
    explicit Var(int i) : VDefault<(F & V_DEFAULT) != 0>(i), Core(i) {}
    Var(const Var&) = default;
    Var(Var&&) = default;
    Var& operator=(const Var&) = default;
    Var& operator=(Var&&) = default;
};
static_assert(std::is_default_constructible_v<Var<1>> && !std::is_default_constructible_v<Var<2>> && !std::is_copy_assignable_v<Var<1>> && std::is_copy_assignable_v<Var<8>>);
static_assert(std::is_nothrow_move_constructible_v<Var<V_NOEXCEPT | V_ASSIGN>> && !std::is_nothrow_move_constructible_v<Var<V_ASSIGN>>);

// ---- the makers ----
template <template <typename> class Sp> struct SharedCommon {
    template <typename T> using ptr = Sp<T>;
    template <typename P> static void sole(const char* n, const P& p, const char* what) { if (p.use_count() != 1) eng::fail("%s %s: use_count() of the result is %ld", n, what, p.use_count()); }
};
template <typename T> using XS = xmem::shared_ptr<T>;
template <typename T> using XL = xmem::local_shared_ptr<T>;
template <typename T> using SS = std::shared_ptr<T>;
struct MkShared : SharedCommon<XS> {
    static constexpr const char* name = "xmem::make_shared";
    static constexpr bool arrays = false, make = true;
    template <typename T, typename... A> static auto mk(A&&... a) { return xmem::make_shared<T>(std::forward<A>(a)...); }
    template <typename T> static auto ow() { return xmem::make_shared_for_overwrite<T>(); }
    template <typename T> static auto mp(T&& t) { return xmem::make_shared_ptr(std::forward<T>(t)); }
};
struct MkLocal : SharedCommon<XL> {
    static constexpr const char* name = "xmem::make_local_shared";
    static constexpr bool arrays = false, make = true;
    template <typename T, typename... A> static auto mk(A&&... a) { return xmem::make_local_shared<T>(std::forward<A>(a)...); }
    template <typename T> static auto ow() { return xmem::make_local_shared_for_overwrite<T>(); }
    template <typename T> static auto mp(T&& t) { return xmem::make_local_shared_ptr(std::forward<T>(t)); }
};
struct MkUnique {
    static constexpr const char* name = "xmem::make_unique";
    static constexpr bool arrays = true, make = true;
    template <typename T> using ptr = xmem::unique_ptr<T>;
    template <typename P> static void sole(const char*, const P&, const char*) {}
    template <typename T, typename... A> static auto mk(A&&... a) { return xmem::make_unique<T>(std::forward<A>(a)...); }
    template <typename T> static auto ow() { return xmem::make_unique_for_overwrite<T>(); }
    template <typename T> static auto mp(T&& t) { return xmem::make_unique_ptr(std::forward<T>(t)); }
};
struct MkStdShared : SharedCommon<SS> {
    static constexpr const char* name = "xstd::make_shared_ptr";
    static constexpr bool arrays = false, make = false;
    template <typename T> static auto mp(T&& t) { return xstd::make_shared_ptr(std::forward<T>(t)); }
};
struct MkStdUnique {
    static constexpr const char* name = "xstd::make_unique_ptr";
    static constexpr bool arrays = false, make = false;
    template <typename T> using ptr = std::unique_ptr<T>;
    template <typename P> static void sole(const char*, const P&, const char*) {}
    template <typename T> static auto mp(T&& t) { return xstd::make_unique_ptr(std::forward<T>(t)); }
};

// ---- checks ----
struct Clean {  // everything made is gone afterwards
    const char* name;
    uint64_t live;
    explicit Clean(const char* n) : name(n) { rec_stats = Stats{}; arg_stats = Stats{}; track::st.on = true; live = track::st.live; }
    ~Clean() noexcept(false) {
        track::st.on = false;
        if (track::st.live != live) { char b[100]; track::describe_live(b, sizeof(b)); eng::fail("%s: memory is left after the result is gone: %s", name, b); }
    }
};
template <typename M, typename P> void aligned(const P& p) {
    using T = std::remove_reference_t<decltype(*p.get())>;
    if (reinterpret_cast<uintptr_t>(p.get()) % alignof(T)) eng::fail("%s: the object is not aligned to %zu", M::name, alignof(T));
}

// arguments of every category: a run time list of categories becomes types
template <typename M, typename... A> void forward_all(const uint8_t* cats, int n, Arg* args, A&&... a) {
    if constexpr (sizeof...(A) < 4) {
        constexpr size_t i = sizeof...(A);
        if (int(i) < n) {
            // only two positions see all categories, or the instantiations explode
            switch (cats[i] % (i < 2 ? 5 : 3)) {
            case LV: return forward_all<M>(cats, n, args, std::forward<A>(a)..., args[i]);
            case CLV: return forward_all<M>(cats, n, args, std::forward<A>(a)..., std::as_const(args[i]));
            case RV: return forward_all<M>(cats, n, args, std::forward<A>(a)..., std::move(args[i]));
            case CRV: if constexpr (i < 2) return forward_all<M>(cats, n, args, std::forward<A>(a)..., std::move(std::as_const(args[i]))); else return;
            default: if constexpr (i < 2) return forward_all<M>(cats, n, args, std::forward<A>(a)..., static_cast<volatile Arg&>(args[i])); else return;
            }
        }
    }
    {
        auto p = M::template mk<Rec>(std::forward<A>(a)...);
        static_assert(std::is_same_v<decltype(p), typename M::template ptr<Rec>>);
        aligned<M>(p);
        if (!p || p->magic != 0x5EC0) eng::fail("%s: no object", M::name);
        if (rec_stats.copy || rec_stats.move || rec_stats.assign || rec_stats.dtor || rec_stats.ctor + rec_stats.dflt != 1)
            eng::fail("%s: %d constructions, %d copies, %d moves and %d destructions for one object", M::name, rec_stats.ctor + rec_stats.dflt, rec_stats.copy, rec_stats.move, rec_stats.dtor);
        if (p->n != int(sizeof...(A))) eng::fail("%s: constructed from %d arguments instead of %d", M::name, p->n, int(sizeof...(A)));
        for (int i = 0; i < p->n; ++i) {
            int want = cats[i] % (i < 2 ? 5 : 3);
            if (p->note[i].c != want) eng::fail("%s: argument %d arrives as %s, it was passed as %s", M::name, i + 1, cat_name(p->note[i].c), cat_name(want));
            if (p->note[i].p != &args[i]) eng::fail("%s: argument %d is not the one which was passed", M::name, i + 1);
        }
        if (arg_stats.copy || arg_stats.move) eng::fail("%s: forwarding made %d copies and %d moves of the arguments", M::name, arg_stats.copy, arg_stats.move);
        M::sole(M::name, p, "(...)");
    }
    if (rec_stats.dtor != 1) eng::fail("%s: %d destructions of one object", M::name, rec_stats.dtor);
}
template <typename T> bool zero_members(const T& t) {
    if constexpr (std::is_same_v<T, Pod>) { for (char c : t.c) if (c) return false; return t.a == 0 && t.d == 0 && t.p == nullptr; }
    else if constexpr (std::is_same_v<T, Mixed>) { for (int c : t.b) if (c) return false; return t.a == 0 && t.s.empty(); }
    else if constexpr (std::is_same_v<T, Over>) { for (char c : t.c) if (c) return false; return t.a == 0; }
    else if constexpr (std::is_same_v<T, Big>) { for (auto c : t.b) if (c) return false; return true; }
    else if constexpr (std::is_same_v<T, Derived>) return t.x == 4 && t.y == 0;
    else if constexpr (std::is_same_v<T, Uni>) return t.i == 0;
    else return t == T();
}
template <typename M, typename T> void value_init() {
    auto p = M::template mk<T>();
    aligned<M>(p);
    if (!p || !zero_members<std::remove_cv_t<T>>(*p)) eng::fail("%s without arguments: the object is not value initialised", M::name);
    M::sole(M::name, p, "()");
    if constexpr (M::arrays && !std::is_const_v<T>) {}
}
template <typename F> void with_type(uint8_t k, F f) {
    switch (k % 12) {
    case 0: f(static_cast<int*>(nullptr)); break;
    case 1: f(static_cast<double*>(nullptr)); break;
    case 2: f(static_cast<void**>(nullptr)); break;
    case 3: f(static_cast<Pod*>(nullptr)); break;
    case 4: f(static_cast<Mixed*>(nullptr)); break;
    case 5: f(static_cast<Over*>(nullptr)); break;
    case 6: f(static_cast<Big*>(nullptr)); break;
    case 7: f(static_cast<Derived*>(nullptr)); break;
    case 8: f(static_cast<En*>(nullptr)); break;
    case 9: f(static_cast<char*>(nullptr)); break;
    case 10: f(static_cast<std::string*>(nullptr)); break;
    default: f(static_cast<Uni*>(nullptr)); break;
    }
}
// default initialisation leaves what the allocator filled in: read from elsewhere, as bytes
__attribute__((noinline)) size_t changed_bytes(const void* p, size_t n) {
    auto b = static_cast<const volatile unsigned char*>(p);
    size_t c = 0;
    for (size_t i = 0; i < n; ++i) c += b[i] != 0xA5;
    return c;
}
size_t (*volatile changed)(const void*, size_t) = changed_bytes;
template <typename T> constexpr bool plain = std::is_trivially_default_constructible_v<T>;
template <typename T> void untouched(const char* name, const T* p, size_t n) {
    if constexpr (plain<T>) if (n * sizeof(T) <= 60000 && changed(p, n * sizeof(T))) eng::fail("%s: memory which is to be overwritten was written (%zu of %zu bytes)", name, changed(p, n * sizeof(T)), n * sizeof(T));
}

template <typename M, typename V> void expect_made(const char* what, int copies, int moves) {
    if (rec_stats.copy != copies || rec_stats.move != moves || rec_stats.dflt || rec_stats.assign)
        eng::fail("%s of %s made %d copies and %d moves, expected %d and %d", M::name, what, rec_stats.copy, rec_stats.move, copies, moves);
}
template <typename M, int F> void make_var(const uint8_t* o, const char* what) {
    using V = Var<F>;
    using Core = typename V::Core;
    int v = o[3];
    auto check = [&](const auto& p, const char* from, auto how, int copies, int moves) {
        if (!p || p->v != v || p->how != how) eng::fail("%s %s, %s (type %d): the value is %d of %d, made in way %d instead of %d", M::name, what, from, F, p ? p->v : -2, v, p ? p->how : 0, how);
        if (rec_stats.copy != copies || rec_stats.move != moves || rec_stats.dflt || rec_stats.assign || rec_stats.dtor)
            eng::fail("%s %s, %s (type %d): %d default constructions, %d copies, %d moves, %d assignments and %d destructions to make one object", M::name, what, from, F, rec_stats.dflt, rec_stats.copy, rec_stats.move, rec_stats.assign, rec_stats.dtor);
        aligned<M>(p);
        M::sole(M::name, p, what);
    };
    auto gone = [&](const char* from) { if (rec_stats.dtor != ((F & V_DTOR) != 0)) eng::fail("%s %s, %s (type %d): %d destructions of one object", M::name, what, from, F, rec_stats.dtor); rec_stats = {}; };
    V a(v); const V c(v); V m(v);
    rec_stats = {};
    { auto p = M::mp(a); check(p, "of an lvalue", Core::COPY, 1, 0); if (a.v != v) eng::fail("%s changes its argument", M::name); }
    gone("of an lvalue");
    { auto p = M::mp(c); check(p, "of a const lvalue", Core::COPY, 1, 0); if (c.v != v) eng::fail("%s changes its argument", M::name); }
    gone("of a const lvalue");
    if (o[4] & 1) { { auto p = M::mp(std::move(m)); check(p, "of an rvalue", Core::MOVE, 0, 1); if (m.v != -9) eng::fail("%s does not move an rvalue", M::name); } gone("of an rvalue"); }
    if (o[4] & 2) { { auto p = M::mp(std::move(c)); check(p, "of a const rvalue", Core::COPY, 1, 0); } gone("of a const rvalue"); }
    if constexpr (M::make) {
        V n(v);
        { auto p = M::template mk<V>(v); check(p, "of a value", Core::VALUE, 0, 0); }
        gone("of a value");
        { auto p = M::template mk<V>(a); check(p, "of an lvalue", Core::COPY, 1, 0); if (a.v != v) eng::fail("%s changes its argument", M::name); }
        gone("of an lvalue");
        { auto p = M::template mk<const V>(c); check(p, "of a const lvalue", Core::COPY, 1, 0); }
        gone("of a const lvalue");
        { auto p = M::template mk<V>(std::move(n)); check(p, "of an rvalue", Core::MOVE, 0, 1); if (n.v != -9) eng::fail("%s does not move an rvalue", M::name); }
        gone("of an rvalue");
    }
}
template <typename M, size_t... I> void make_vars(const uint8_t* o, std::index_sequence<I...>) {
    using F = void (*)(const uint8_t*, const char*);
    static const F fs[] = {make_var<M, int(I)>...};
    fs[o[5] % V_ALL](o, "of a type of another sort");
}
template <typename M> void make_ptr(const uint8_t* o) {
    int v = o[3];
    switch (o[2] % 11) {
    case 9: case 10: make_vars<M>(o, std::make_index_sequence<V_ALL>()); break;
    case 0: { Rec r; r.n = v; rec_stats = {};
        { auto p = M::mp(r); static_assert(std::is_same_v<decltype(p), typename M::template ptr<Rec>>); if (p->n != v || r.n != v || p.get() == &r) eng::fail("%s of an lvalue: value %d of %d, source then %d", M::name, p->n, v, r.n); expect_made<M, Rec>("an lvalue", 1, 0); M::sole(M::name, p, "of an lvalue"); }
        if (rec_stats.dtor != 1) eng::fail("%s: %d destructions", M::name, rec_stats.dtor);
        break; }
    case 1: { Rec r0; r0.n = v; const Rec& r = r0; rec_stats = {};
        auto p = M::mp(r); static_assert(std::is_same_v<decltype(p), typename M::template ptr<const Rec>>); if (p->n != v || r.n != v) eng::fail("%s of a const lvalue: value %d of %d, source then %d", M::name, p->n, v, r.n); expect_made<M, Rec>("a const lvalue", 1, 0); break; }
    case 2: { Rec r; r.n = v; rec_stats = {};
        auto p = M::mp(std::move(r)); static_assert(std::is_same_v<decltype(p), typename M::template ptr<Rec>>); if (p->n != v || r.n != -7) eng::fail("%s of an rvalue: value %d of %d, source then %d", M::name, p->n, v, r.n); expect_made<M, Rec>("an rvalue", 0, 1); break; }
    case 3: { Rec r0; r0.n = v; const Rec& r = r0; rec_stats = {};
        auto p = M::mp(std::move(r)); static_assert(std::is_same_v<decltype(p), typename M::template ptr<const Rec>>); if (p->n != v || r.n != v) eng::fail("%s of a const rvalue: value %d of %d", M::name, p->n, v); expect_made<M, Rec>("a const rvalue", 1, 0); break; }
    case 4: { auto p = M::mp(MoveOnly(v)); if (p->v != v) eng::fail("%s of a move only temporary: value", M::name); expect_made<M, MoveOnly>("a move only temporary", 0, 1); break; }
    case 5: { CopyOnly c(v); auto p = M::mp(c); auto q = M::mp(CopyOnly(v + 1)); if (p->v != v || q->v != v + 1) eng::fail("%s of a copy only type: value", M::name); expect_made<M, CopyOnly>("copy only types", 2, 0); break; }
    case 6: { std::string s(size_t(v % 60), 'x'); auto p = M::mp(s); if (*p != s || s.size() != size_t(v % 60)) eng::fail("%s of a string", M::name); std::string t = s; auto q = M::mp(std::move(t)); if (*q != s) eng::fail("%s of a moved string", M::name); break; }
    case 7: { int i = v; auto p = M::mp(i); i = -1; const int j = v; auto q = M::mp(j); static_assert(std::is_same_v<decltype(q), typename M::template ptr<const int>>); if (*p != v || *q != v || *M::mp(v + 0) != v) eng::fail("%s of an int", M::name); break; }
    default: { std::vector<int> s(size_t(v % 20), 3); auto p = M::mp(std::vector<int>(s)); if (*p != s) eng::fail("%s of a vector", M::name); Over ov{v, {}}; auto q = M::mp(ov); aligned<M>(q); if (q->a != v) eng::fail("%s of an over-aligned struct", M::name); break; }
    }
}
// numbers of elements which no memory can hold: all of them must be asked for
template <typename M> void huge_arrays(const uint8_t* o) {
    with_type(o[4], [&](auto* t) {
        using T = std::remove_pointer_t<decltype(t)>;
        size_t n = (size_t(o[3] + 1) << (o[5] % 64)) + o[6];
        if (n < 4000000) n += size_t(1) << (22 + o[5] % 42);
        bool overflow = n > (size_t(-1) >> 1) / sizeof(T) - 4096, thrown = false;
        track::st.limit = 1 << 20;
        track::st.refused = 0;
        try {
            if (o[3] & 1) { auto p = M::template mk<T[]>(n); changed(p.get(), 0); }
            else { auto p = xmem::make_unique_for_overwrite<T[]>(n); changed(p.get(), 0); }
        } catch (const std::bad_alloc&) { thrown = true; }
        size_t refused = track::st.refused;
        track::st.limit = 0;
        if (!thrown) eng::fail("%s<T[]>(%zu) makes an array which no memory can hold", M::name, n);
        if (overflow ? refused && (refused >> 40) == 0 : refused < n * sizeof(T) || refused > n * sizeof(T) + 256)
            eng::fail("%s<T[]>(%zu) of elements of %zu bytes asks for %zu bytes", M::name, n, sizeof(T), refused);
    });
}
template <typename M> void arrays(const uint8_t* o) {
    static const size_t large[] = {255, 256, 257, 300, 1000, 4096, 65536, 70000};
    size_t n = o[3] < 200 ? o[3] % 41 : large[o[3] < 250 ? o[3] % 5 : o[3] % 8];
    switch (o[2] % 5) {
    case 4: huge_arrays<M>(o); break;
    case 0: with_type(o[4], [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            auto p = M::template mk<T[]>(n);
            static_assert(std::is_same_v<decltype(p), xmem::unique_ptr<T[]>>);
            for (size_t i = 0; i < n; ++i) if (!zero_members(p[i])) eng::fail("%s<T[]>(%zu): element %zu is not value initialised", M::name, n, i);
            if (plain<T> && track::is_block(p.get()) && track::block_size(p.get()) != n * sizeof(T)) eng::fail("%s<T[]>(%zu) makes room for %zu bytes", M::name, n, track::block_size(p.get()));
        }); break;
    case 1: with_type(o[4], [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            auto p = xmem::make_unique_for_overwrite<T[]>(n);
            untouched("xmem::make_unique_for_overwrite<T[]>", p.get(), n);
            if (!plain<T>) for (size_t i = 0; i < n; ++i) if constexpr (std::is_same_v<T, std::string>) { if (!p[i].empty()) eng::fail("make_unique_for_overwrite<T[]>: element without constructor"); }
            if (plain<T> && track::is_block(p.get()) && track::block_size(p.get()) != n * sizeof(T)) eng::fail("make_unique_for_overwrite<T[]>(%zu) makes room for %zu bytes", n, track::block_size(p.get()));
            if constexpr (plain<T>) { auto b = reinterpret_cast<volatile unsigned char*>(p.get()); for (size_t i = 0; i < n * sizeof(T); ++i) b[i] = 1; }
        }); break;
    case 2: {
        { auto p = M::template mk<User[]>(n); if (rec_stats.dflt != int(n)) eng::fail("%s<T[]>(%zu) constructs %d elements", M::name, n, rec_stats.dflt); for (size_t i = 0; i < n; ++i) if (p[i].a != 7) eng::fail("%s<T[]>(%zu): element %zu", M::name, n, i); }
        if (rec_stats.dtor != int(n)) eng::fail("%s<T[]>(%zu): %d elements are destroyed", M::name, n, rec_stats.dtor);
        break;
    }
    default: {
        { auto p = xmem::make_unique_for_overwrite<User[]>(n); if (rec_stats.dflt != int(n)) eng::fail("make_unique_for_overwrite<T[]>(%zu) constructs %d elements", n, rec_stats.dflt); for (size_t i = 0; i < n; ++i) if (p[i].a != 7) eng::fail("make_unique_for_overwrite<T[]>: element %zu", i); }
        if (rec_stats.dtor != int(n)) eng::fail("make_unique_for_overwrite<T[]>(%zu): %d elements are destroyed", n, rec_stats.dtor);
        break;
    }
    }
}
enum { FORWARD, BYVALUE, BRACE, VALUE, OVERWRITE, MAKEPTR, ARRAYS, ODD, NKIND };
const char* kinds[] = {"forward", "by value", "brace", "value init", "for overwrite", "make pointer", "arrays", "redefining operators"};
uint32_t seen;
template <typename M> void odd(const uint8_t* o) {
    int v = o[2];
    constexpr bool uniq = std::is_same_v<M, MkUnique> || std::is_same_v<M, MkStdUnique>;
    auto counts = [&](const char* what, int times) {
        if (own_stats.n != (uniq ? times : 0) || own_stats.d != own_stats.n) eng::fail("%s %s: the operator new of the class is used %d times and its operator delete %d times", M::name, what, own_stats.n, own_stats.d);
        if (own_stats.an || own_stats.ad) eng::fail("%s %s: the array operators of the class are used", M::name, what);
    };
    own_stats = {};
    {
        const Amp a(v); Amp b(v + 1); AmpSame c(v + 2);
        auto p = M::mp(a); auto q = M::mp(b); auto r = M::mp(c); auto s = M::mp(Amp(v + 3)); auto t = M::mp(AmpSame(v + 4));
        if (!p || !q || !r || !s || !t || p->v != v || q->v != v + 1 || r->v != v + 2 || s->v != v + 3 || t->v != v + 4) eng::fail("%s of a type which overloads &", M::name);
        M::sole(M::name, r, "of a type which overloads &");
    }
    { const Own a(v); auto p = M::mp(a); auto q = M::mp(Own(v + 1)); if (p->v != v || q->v != v + 1) eng::fail("%s of a type with its own operator new", M::name); }
    counts("of a type with its own operator new", 2);
    if constexpr (M::make) {
        {
            auto p = M::template mk<Amp>(v); auto q = M::template mk<AmpSame>(v); auto r = M::template mk<const AmpSame>(); auto s = M::template ow<AmpSame>(); auto t = M::template ow<Amp>();
            if (!p || !q || !r || !s || !t || p->v != v || q->v != v || r->v != 3 || s->v != 3 || t->v != 3) eng::fail("%s of a type which overloads &", M::name);
            M::sole(M::name, q, "of a type which overloads &"); M::sole(M::name, s, "of a type which overloads &");
        }
        own_stats = {};
        { auto p = M::template mk<Own>(v); auto q = M::template mk<const Own>(v + 1); auto r = M::template ow<Own>(); if (p->v != v || q->v != v + 1 || r->v != 3) eng::fail("%s of a type with its own operator new", M::name); }
        counts("of a type with its own operator new", 3);
        if constexpr (!uniq) { // adopting, by deleters of all these sorts
            OwnDel d; d.v = 9;
            { typename M::template ptr<Rec> p(new Rec, d); typename M::template ptr<const Rec> q; q.reset(new Rec, d); if (!p || p->magic != 0x5EC0 || !q || q->magic != 0x5EC0) eng::fail("adopting with a deleter which overloads operators"); typename M::template ptr<AmpSame> r(new AmpSame(v)); if (!r || r->v != v) eng::fail("adopting an object which overloads &"); }
            counts("adopting", 0);
            int calls = 0;
            auto rec = [&] { auto r = new Rec; r->n = v; return r; };
            {
                using Sp = typename M::template ptr<Rec>;
                Sp p(rec(), MoDel(v, &calls)); MoDel m(v, &calls); Sp q; q.reset(rec(), std::move(m)); Sp r = p;
                if (m.v != -1) eng::fail("a deleter given as an rvalue is not moved");
                xmem::unique_ptr<Rec, MoDel> u(rec(), MoDel(v, &calls)); Sp s(std::move(u));
                xmem::unique_ptr<Rec, VirtDel> w(rec(), VirtDel(&calls)); Sp t(std::move(w)); Sp x(rec(), VirtDel(&calls));
                auto l = [own = std::make_unique<int>(v), &calls](Rec* p) { if (!own || *own != p->n) eng::fail("a lambda which deletes lost what it holds"); ++calls; delete p; };
                Sp y(rec(), std::move(l));
                if (u || w || calls) eng::fail("adopting with deleters which can only be moved");
                p.reset(); if (calls) eng::fail("adopting with deleters which can only be moved: deleted too early");
            }
            if (calls != 6) eng::fail("adopting with deleters which can only be moved: %d of 6 objects are deleted", calls);
            { typename M::template ptr<Own> p(new Own(v)); typename M::template ptr<const Own> q; q.reset(new Own(v)); }
            if (own_stats.n != 2 || own_stats.d != 2) eng::fail("adopting objects with their own operator new: deleted with it %d times of 2", own_stats.d);
        }
        else {
            own_stats = {};
            { auto p = M::template mk<Own[]>(size_t(o[3] % 5)); auto q = xmem::make_unique_for_overwrite<Own[]>(size_t(o[3] % 3)); for (int i = 0; i < o[3] % 5; ++i) if (p[size_t(i)].v != 3) eng::fail("%s<T[]> of a type with its own operators", M::name); }
            if (own_stats.an != 2 || own_stats.ad != 2 || own_stats.n || own_stats.d) eng::fail("%s<T[]>: the operators new[] and delete[] of the class are used %d and %d times, new and delete %d and %d times", M::name, own_stats.an, own_stats.ad, own_stats.n, own_stats.d);
        }
    }
}
template <typename M> void one(const uint8_t* o) {
    Clean clean(M::name);
    int k = o[1] % NKIND;
    if (!M::make && k != ODD) k = MAKEPTR;
    if (!M::arrays && k == ARRAYS) k = VALUE;
    seen |= 1u << k;
    if (k == MAKEPTR) return make_ptr<M>(o);
    if (k == ODD) return odd<M>(o);
    if constexpr (M::make) switch (k) {
    case FORWARD: { Arg args[4] = {Arg(1), Arg(2), Arg(3), Arg(4)}; forward_all<M>(o + 4, o[2] % 5, args); break; }
    case BYVALUE: {
        Arg a(o[2] % 9), b(o[3] % 9), c(o[4] % 9), d(o[5] % 9);
        int want = a.id + 10 * b.id + 100 * c.id + 1000 * d.id;
        bool mv = o[6] & 1;
        { auto p = mv ? M::template mk<ByValue>(std::move(a), b, c, std::move(d)) : M::template mk<ByValue>(a, b, c, std::move(d));
          if (p->sum != want || p->r != &b || b.id != o[3] % 9 + 50) eng::fail("%s: constructor got other values", M::name); }
        if (arg_stats.copy != !mv || arg_stats.move != 1 + mv || a.moved != mv || !d.moved || b.moved || c.moved) eng::fail("%s: a by value parameter took %d copies and %d moves", M::name, arg_stats.copy, arg_stats.move);
        if (rec_stats.ctor != 1 || rec_stats.dtor != 1) eng::fail("%s: %d constructions, %d destructions", M::name, rec_stats.ctor, rec_stats.dtor);
        break;
    }
    case BRACE: {
        if (M::template mk<Brace>(1, 2)->how != 1) eng::fail("%s<T>(a, b) does not construct T(a, b)", M::name);
        if (M::template mk<Brace>(std::initializer_list<int>{1, 2})->how != 2 || M::template mk<Brace>(2.5)->how != 3) eng::fail("%s<T>(x) does not construct T(x)", M::name);
        size_t n = o[2] % 30; int v = o[3];
        auto p = M::template mk<std::vector<int>>(n, v);
        if (*p != std::vector<int>(n, v)) eng::fail("%s<vector>(%zu, %d) has %zu elements", M::name, n, v, p->size());
        auto q = M::template mk<const std::string>(n, 'c');
        if (*q != std::string(n, 'c')) eng::fail("%s<const string>", M::name);
        if (*M::template mk<bool>(M::template mk<int>(1)) != true) eng::fail("%s<bool>(pointer)", M::name);
        auto np = M::template mk<const char*>(nullptr); if (*np) eng::fail("%s<const char*>(nullptr)", M::name);
        auto in = M::template mk<int>(int(o[4]) - 100); if (*in != int(o[4]) - 100) eng::fail("%s<int>", M::name);
        int x = 3; auto rw = M::template mk<std::reference_wrapper<int>>(x); rw->get() = 9; if (x != 9) eng::fail("%s: reference argument was copied", M::name);
        break;
    }
    case VALUE: with_type(o[2], [&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; if (o[3] & 1) value_init<M, T>(); else value_init<M, const T>(); }); break;
    case OVERWRITE: with_type(o[2], [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            auto p = M::template ow<T>();
            static_assert(std::is_same_v<decltype(p), typename M::template ptr<T>>);
            aligned<M>(p);
            untouched(M::name, p.get(), 1);
            if constexpr (std::is_same_v<T, std::string>) if (!p->empty()) eng::fail("%s for overwrite: no constructor ran", M::name);
            if constexpr (std::is_same_v<T, Mixed>) if (!p->s.empty()) eng::fail("%s for overwrite: no constructor ran", M::name);
            if constexpr (std::is_same_v<T, Derived>) if (p->x != 4 || !dynamic_cast<Derived*>(static_cast<Base*>(p.get()))) eng::fail("%s for overwrite: no constructor ran", M::name);
            M::sole(M::name, p, "for overwrite");
            { auto u = M::template ow<User>(); if (rec_stats.dflt != 1 || u->a != 7) eng::fail("%s for overwrite: %d constructors ran", M::name, rec_stats.dflt); }
            if (rec_stats.dtor != 1) eng::fail("%s for overwrite: %d destructors ran", M::name, rec_stats.dtor);
        }); break;
    case ARRAYS: if constexpr (M::arrays) arrays<M>(o); break;
    }
}
void gen(eng::Rng& r, const std::string&, uint64_t, eng::bytes& out) {
    int n = int(r.range(3, 8));
    for (int i = 0; i < n; ++i) {
        uint8_t op[8];
        for (auto& b : op) b = r.byte();
        if (r.chance(2, 5)) op[1] = FORWARD;
        out.insert(out.end(), op, op + 8);
    }
}
void run(const std::string& prop, const uint8_t* d, size_t n) {
    track::reset();
    seen = 0;
    for (size_t i = 0; i + 8 <= n; i += 8) {
        auto o = d + i;
        eng::count("objects asked for");
        if (prop == "C17") { if (o[0] & 1) one<MkStdShared>(o); else one<MkStdUnique>(o); }
        else switch (o[0] % 3) {
        case 0: one<MkShared>(o); break;
        case 1: one<MkLocal>(o); break;
        default: one<MkUnique>(o); break;
        }
    }
    for (int k = 0; k < NKIND; ++k) if (seen >> k & 1) eng::label(kinds[k]);
    if (seen & ~(1u << BRACE) && n >= 16) eng::nontrivial();
}
std::string describe(const std::string& prop, const uint8_t* d, size_t n) {
    static const char* m[] = {"make_shared", "make_local_shared", "make_unique"};
    std::string s;
    for (size_t i = 0; i + 8 <= n; i += 8) {
        auto o = d + i;
        if (prop == "C17") appendf(s, "%sxstd::make_%s_ptr(%d, %d)", i ? "; " : "", o[0] & 1 ? "shared" : "unique", o[2] % 9, o[3]);
        else appendf(s, "%s%s %s(%d, %d, %d, %d, %d, %d)", i ? "; " : "", m[o[0] % 3], kinds[o[1] % NKIND], o[2], o[3], o[4], o[5], o[6], o[7]);
    }
    return s;
}
} // namespace
const Topic topic_make{8, gen, run, describe};
