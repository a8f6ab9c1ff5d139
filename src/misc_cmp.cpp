// C16: comparing and streaming pointers is comparing and streaming what get() gives.
#include "misc.hpp"
#include <cstdint>
#include <string>
#include <vector>
#include <sstream>
#include <tuple>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/basic_weak_ptr.hpp>
#include <xmem/ostream.hpp>

namespace {
struct A { int a = 1; virtual ~A() = default; };
struct B { int b = 2; virtual ~B() = default; };
struct C : A, B { int c = 3; };
struct Named { int n = 0; char pad[12]; };
std::ostream& operator<<(std::ostream& o, const Named* n) { return n ? o << "Named#" << n->n : o << "nobody"; }
struct Silent { int v; };
std::ostream& operator<<(std::ostream& o, Silent* s) { o.width(5); return o << (s ? s->v : -1); }

C objs[4];
Named nameds[4];
Silent silents[4] = {{1}, {2}, {3}, {4}};
char strs[5][12] = {"", "x", "hello", "a b\tc", "longer str"};
int ints[6];

template <typename T> T* addr(uint8_t i) {
    using U = std::remove_cv_t<T>;
    if constexpr (std::is_same_v<U, char> || std::is_same_v<U, unsigned char> || std::is_same_v<U, signed char>) return reinterpret_cast<T*>(strs[i % 5]);
    else if (i % 5 == 0) return nullptr;
    else if constexpr (std::is_same_v<U, Named>) return &nameds[i % 5 - 1];
    else if constexpr (std::is_same_v<U, Silent>) return &silents[i % 5 - 1];
    else if constexpr (std::is_same_v<U, int>) return &ints[i % 6];
    else if constexpr (std::is_void_v<U>) {
        switch ((i / 5) % 3) {  // void pointers see all the parts of an object
        case 0: return static_cast<A*>(&objs[i % 5 - 1]);
        case 1: return static_cast<B*>(&objs[i % 5 - 1]);
        default: return strs[i % 5];
        }
    }
    else return &objs[i % 5 - 1];
}

struct NoDel { template <typename T> void operator()(T*) const noexcept {} };
struct NoDel2 { int id = 0; template <typename T> void operator()(T*) const noexcept {} };
NoDel nodel;
void nofn(B*) {}

template <typename P> struct Bag { eng::hvec<P> v; };
template <template <typename> class S, template <typename> class W>
struct Shared {
    using owner_t = S<int>;
    std::tuple<Bag<S<A>>, Bag<S<B>>, Bag<S<C>>, Bag<S<const C>>, Bag<S<const B>>, Bag<S<void>>, Bag<S<const void>>, Bag<S<C[]>>, Bag<S<const A[]>>, Bag<S<Named>>, Bag<S<const Named>>, Bag<S<Silent>>, Bag<S<int>>,
        Bag<S<char>>, Bag<S<const char>>, Bag<S<char[]>>, Bag<S<unsigned char>>, Bag<S<volatile int>>> b;
    eng::hvec<W<void>> w;
    eng::hvec<owner_t> owners;
};
template <typename T> using Sa = xmem::shared_ptr<T>;
template <typename T> using Wa = xmem::weak_ptr<T>;
template <typename T> using Sl = xmem::local_shared_ptr<T>;
template <typename T> using Wl = xmem::local_weak_ptr<T>;

template <typename T, typename D = xmem::default_delete<T>> using Uq = xmem::unique_ptr<T, D>;
using Uniq = std::tuple<Bag<Uq<A>>, Bag<Uq<B>>, Bag<Uq<C>>, Bag<Uq<const C>>, Bag<Uq<C, NoDel>>, Bag<Uq<const B, NoDel2>>, Bag<Uq<C, NoDel&>>, Bag<Uq<B, NoDel&>>, Bag<Uq<B, void (*)(B*)>>, Bag<Uq<C, void (*)(B*)>>, Bag<Uq<C[]>>, Bag<Uq<C[], NoDel>>,
    Bag<Uq<Named, NoDel>>, Bag<Uq<Silent, NoDel>>, Bag<Uq<char, NoDel>>, Bag<Uq<char[], NoDel>>, Bag<Uq<const char, NoDel2>>, Bag<Uq<int>>>;
constexpr size_t NS = 18;

template <typename F, typename T, size_t... I> void at_impl(T& t, size_t k, F f, std::index_sequence<I...>) { (void)((I == k ? (f(std::get<I>(t)), true) : false) || ...); }
template <typename F, typename... X> void at(std::tuple<X...>& t, size_t k, F f) { at_impl(t, k % sizeof...(X), f, std::index_sequence_for<X...>{}); }
template <typename F, typename... X> void each(std::tuple<X...>& t, F f) { std::apply([&](auto&... x) { (f(x), ...); }, t); }

template <typename X, typename Y, typename = void> struct cmp_ok : std::false_type {};
template <typename X, typename Y> struct cmp_ok<X, Y, std::void_t<decltype(std::declval<X>() == std::declval<Y>()), decltype(std::declval<X>() < std::declval<Y>())>> : std::true_type {};

uint64_t n_pairs, n_equal;
template <typename P, typename Q> void compare(const char* what, const P& p, const Q& q) {
    auto g = p.get(); auto h = q.get();
    static_assert(std::is_same_v<decltype(p == q), bool> && std::is_same_v<decltype(p < q), bool>);
    ++n_pairs;
    if (g == h) ++n_equal;
#define CHECK(op) if ((p op q) != (g op h)) eng::fail("%s: comparison " #op " gives %d, that of the addresses %p and %p gives %d", what, int(p op q), \
    static_cast<const void*>(const_cast<const char*>(reinterpret_cast<const volatile char*>(g))), static_cast<const void*>(const_cast<const char*>(reinterpret_cast<const volatile char*>(h))), int(g op h))
    CHECK(==); CHECK(!=); CHECK(<); CHECK(<=); CHECK(>); CHECK(>=);
#undef CHECK
}
template <typename B1, typename B2> void compare_bags(const char* what, const B1& x, const B2& y) {
    if constexpr (cmp_ok<decltype(x.v[0].get()), decltype(y.v[0].get())>::value)
        for (auto& p : x.v) for (auto& q : y.v) { compare(what, p, q); compare(what, q, p); }
}

struct Fmt { std::ios::fmtflags flags; int width; char fill; bool bad; };
template <typename P> void stream(const char* what, const P& p, const Fmt& f) {
    using T = std::remove_cv_t<std::remove_pointer_t<decltype(p.get())>>;
    if constexpr (std::is_same_v<T, char> || std::is_same_v<T, unsigned char>) if (!p.get()) return;
    std::ostringstream a, b;
    for (auto s : {&a, &b}) { *s << "<"; s->flags(f.flags); s->fill(f.fill); s->width(f.width); if (f.bad) s->setstate(std::ios::failbit); }
    std::ostream& r = (a << p);
    b << p.get();
    if (&r != &a) eng::fail("%s: streaming returns another stream", what);
    if (a.width() != b.width() || a.flags() != b.flags() || a.fill() != b.fill() || a.rdstate() != b.rdstate()) eng::fail("%s: streaming leaves the stream in another state than streaming get()", what);
    a << ">"; b << ">";
    if (a.str() != b.str()) eng::fail("%s: streaming prints \"%s\", streaming get() prints \"%s\"", what, a.str().c_str(), b.str().c_str());
}

template <typename S> void owner_order(const char* what, S& s) {
    // classes of owners: 0 nobody, 1.. the owners (expired ones included, the weak pointers keep them apart)
    eng::hvec<const void*> cls{nullptr};
    auto klass = [&](const void* o) { for (size_t i = 0; i < cls.size(); ++i) if (cls[i] == o) return i; cls.push_back(o); return cls.size() - 1; };
    each(s.b, [&](auto& b) { for (auto& p : b.v) klass(p.owner()); });
    for (auto& w : s.w) klass(w.owner());
    size_t n = cls.size();
    eng::hvec<int> rel(n * n, -1);
    auto note = [&](const void* a, const void* b, bool before, const char* kinds) {
        int& r = rel[klass(a) * n + klass(b)];
        if (r >= 0 && r != int(before)) eng::fail("%s: owner_before between %s contradicts an earlier answer for the same two owners", what, kinds);
        r = before;
    };
    each(s.b, [&](auto& x) {
        each(s.b, [&](auto& y) {
            for (auto& p : x.v) for (auto& q : y.v) {
                note(p.owner(), q.owner(), p.owner_before(q), "shared pointers");
                if (same_owner(p, q) != (p.owner() == q.owner())) eng::fail("%s: same_owner of two shared pointers is %d", what, int(same_owner(p, q)));
            }
        });
        for (auto& w : s.w) for (auto& p : x.v) {
            note(w.owner(), p.owner(), w.owner_before(p), "a weak and a shared pointer");
            if (same_owner(w, p) != (w.owner() == p.owner()) || same_owner(p, w) != (w.owner() == p.owner())) eng::fail("%s: same_owner of a weak and a shared pointer is wrong", what);
        }
    });
    for (auto& w : s.w) for (auto& v : s.w) {
        note(w.owner(), v.owner(), w.owner_before(v), "weak pointers");
        if (same_owner(w, v) != (w.owner() == v.owner())) eng::fail("%s: same_owner of two weak pointers is wrong", what);
    }
    for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
        if (rel[a * n + b] < 0) continue;
        if (a == b && rel[a * n + b]) eng::fail("%s: owner_before is true for pointers with the same owner", what);
        if (a != b && rel[b * n + a] >= 0 && rel[a * n + b] + rel[b * n + a] != 1) eng::fail("%s: owner_before does not order two different owners", what);
        for (size_t c = 0; c < n; ++c)
            if (rel[a * n + b] == 1 && rel[b * n + c] == 1 && rel[a * n + c] == 0) eng::fail("%s: owner_before is not transitive", what);
    }
}

enum { K_SA, K_SL, K_U, K_WA, K_WL, K_DROP, K_N };
template <typename S> void add_shared(S& s, const uint8_t* o) {
    at(s.b, o[1], [&](auto& bag) {
        using P = std::remove_reference_t<decltype(bag.v[0])>;
        using E = typename P::element_type;
        using Q = decltype(make_aliased(s.owners[0], static_cast<E*>(nullptr)));
        bag.v.push_back(P(Q(s.owners[o[3] % s.owners.size()], addr<E>(o[2]))));
        if (o[4] % 5 == 0) bag.v.push_back(P());
        if (o[4] % 7 == 0) { P moved = std::move(bag.v.front()); if (o[4] & 1) bag.v.push_back(std::move(moved)); }
    });
}
template <typename D> struct is_fnp : std::is_pointer<D> {};
void add_unique(Uniq& u, const uint8_t* o) {
    at(u, o[1], [&](auto& bag) {
        using P = std::remove_reference_t<decltype(bag.v[0])>;
        using T = std::remove_pointer_t<typename P::pointer>;
        using D = typename P::deleter_type;
        if constexpr (std::is_reference_v<D>) bag.v.push_back(P(addr<T>(o[2]), nodel));
        else if constexpr (is_fnp<D>::value) bag.v.push_back(P(addr<T>(o[2]), nofn));
        else bag.v.push_back(P(addr<T>(o[2])));
    });
}
void gen(eng::Rng& r, const std::string&, uint64_t, eng::bytes& out) {
    int n = int(r.range(2, 14));
    int fam = int(r.below(4));  // mostly one family, so that pairs are comparable
    int few = int(r.range(2, 6));
    for (int i = 0; i < n; ++i) {
        uint8_t op[8];
        for (auto& b : op) b = r.byte();
        op[0] = fam == 3 || r.chance(1, 5) ? uint8_t(r.below(K_N)) : uint8_t(fam == 2 ? K_U : r.chance(1, 4) ? K_WA + fam : r.chance(3, 4) ? fam : 1 - fam);
        op[2] = uint8_t(r.below(uint32_t(few * 3)));
        op[3] = uint8_t(r.below(5));
        out.insert(out.end(), op, op + 8);
    }
}
void run(const std::string&, const uint8_t* d, size_t n) {
    Shared<Sa, Wa> a;
    Shared<Sl, Wl> l;
    Uniq u;
    n_pairs = n_equal = 0;
    for (int i = 0; i < 4; ++i) nameds[i].n = i;
    a.owners.push_back(nullptr); l.owners.push_back(nullptr);
    for (int i = 0; i < 3; ++i) { a.owners.push_back(xmem::make_shared<int>(i)); l.owners.push_back(xmem::make_local_shared<int>(i)); }
    bool expired = false, weak = false;
    for (size_t i = 0; i + 8 <= n; i += 8) {
        auto o = d + i;
        switch (o[0] % K_N) {
        case K_SA: add_shared(a, o); break;
        case K_SL: add_shared(l, o); break;
        case K_U: add_unique(u, o); break;
        case K_WA: { Wa<void> w(a.owners[o[3] % a.owners.size()]); a.w.push_back(w); weak = true; break; }
        case K_WL: { Wl<void> w(l.owners[o[3] % l.owners.size()]); l.w.push_back(w); weak = true; break; }
        default: // the owner goes away, unless others have it: its weak pointers expire, a new one takes its place
            a.owners[1 + o[3] % 3] = xmem::make_shared<int>(9); l.owners[1 + o[3] % 3] = xmem::make_local_shared<int>(9);
            for (auto& w : a.w) if (w && w.expired()) expired = true;
            break;
        }
    }
    size_t count = 0;
    each(a.b, [&](auto& x) { count += x.v.size(); each(a.b, [&](auto& y) { compare_bags("xmem::shared_ptr", x, y); }); each(l.b, [&](auto& y) { compare_bags("xmem::shared_ptr and local_shared_ptr", x, y); }); });
    each(l.b, [&](auto& x) { count += x.v.size(); each(l.b, [&](auto& y) { compare_bags("xmem::local_shared_ptr", x, y); }); });
    each(u, [&](auto& x) { count += x.v.size(); each(u, [&](auto& y) { compare_bags("xmem::unique_ptr", x, y); }); });
    owner_order("xmem::shared_ptr", a);
    owner_order("xmem::local_shared_ptr", l);
    static const std::ios::fmtflags bases[] = {std::ios::dec, std::ios::hex, std::ios::oct, std::ios::fmtflags{}};
    static const std::ios::fmtflags adj[] = {std::ios::left, std::ios::right, std::ios::internal, std::ios::fmtflags{}};
    for (size_t i = 0; i + 8 <= n; i += 8) {
        auto o = d + i;
        Fmt f{bases[o[5] & 3] | adj[(o[5] >> 2) & 3] | (o[5] & 16 ? std::ios::uppercase : std::ios::fmtflags{}) | (o[5] & 32 ? std::ios::showbase : std::ios::fmtflags{}) | (o[5] & 64 ? std::ios::boolalpha : std::ios::fmtflags{}) | (o[5] & 128 ? std::ios::showpos : std::ios::fmtflags{}),
            o[6] % 3 ? o[6] % 40 : 0, char(o[7] % 3 ? '0' + o[7] % 60 : ' '), o[6] == 255};
        auto all = [&](const char* what, auto& t) { at(t, o[1], [&](auto& b) { for (auto& p : b.v) stream(what, p, f); }); };
        switch (o[0] % K_N) {
        case K_SA: all("xmem::shared_ptr", a.b); break;
        case K_SL: all("xmem::local_shared_ptr", l.b); break;
        case K_U: all("xmem::unique_ptr", u); break;
        default: break;
        }
    }
    each(u, [&](auto& b) { for (auto& p : b.v) (void)p.release(); });
    if (n_pairs > 6 && n_equal && n_equal < n_pairs) eng::nontrivial();
    eng::count("pairs compared", n_pairs);
    eng::count("pairs with equal addresses", n_equal);
    eng::count("pointers", count);
    if (weak) eng::label("weak pointers ordered by owner");
    if (expired) eng::label("expired weak pointers ordered by owner");
}
std::string describe(const std::string&, const uint8_t* d, size_t n) {
    static const char* names[] = {"shared", "local", "unique", "weak", "local weak", "drop owner"};
    std::string s;
    for (size_t i = 0; i + 8 <= n; i += 8)
        appendf(s, "%s%s(type %d, address %d, owner %d, extra %d, format %02x %d %d)", i ? "; " : "", names[d[i] % K_N], d[i + 1] % int(NS), d[i + 2], d[i + 3] % 4, d[i + 4], d[i + 5], d[i + 6], d[i + 7]);
    return s;
}
} // namespace
const Topic topic_cmp{8, gen, run, describe};
