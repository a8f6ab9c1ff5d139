// C09: memory is aligned, big enough and returned the way it was obtained.
#include "misc.hpp"
#include "track.hpp"
#include <cstdint>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <deque>
#include <set>
#include <unordered_map>
#include <memory>
#include <limits>
#include <functional>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/unique_ptr.hpp>
#include <xmem/basic_weak_ptr.hpp>
#include <xmem/allocator.hpp>
#include <xmem/allocator_rebind.hpp>

namespace {
// ---- a stateful allocator which notes everything; exactly as much room and alignment as asked for ----
struct Block { void* p; size_t n, size, align; int id; bool live; void* raw; };
eng::hvec<Block> blocks;
int objects_live;

template <typename T> struct TBase {
    using value_type = T;
    int id;
    explicit TBase(int i) noexcept : id(i) {}
    TBase(const TBase&) noexcept = default;
    ~TBase() { *const_cast<volatile int*>(&id) = -1; }
    TBase& operator=(const TBase&) noexcept = default;
    T* allocate(size_t n) {
        if (id < 0) eng::fail("an allocator is used which was destroyed");
        size_t al = alignof(T) < 8 ? 8 : alignof(T), bytes = n * sizeof(T);
        void* raw;
        // aligned to alignof(T), but not to twice that; red zones around
        if (posix_memalign(&raw, al * 2, bytes + al * 2 + al)) abort();
        memset(raw, 0x5A, bytes + al * 3);
        T* p = reinterpret_cast<T*>(static_cast<char*>(raw) + al);
        blocks.push_back({p, n, sizeof(T), alignof(T), id, true, raw});
        return p;
    }
    void deallocate(T* p, size_t n) noexcept {
        if (id < 0) eng::fail("an allocator is used which was destroyed");
        for (auto& b : blocks) {
            if (!b.live || b.p != p) continue;
            if (b.id != id) eng::fail("memory of allocator %d is returned to allocator %d", b.id, id);
            if (b.n != n) eng::fail("%zu objects were allocated, %zu are returned", b.n, n);
            if (b.size != sizeof(T) || b.align != alignof(T)) eng::fail("memory allocated for objects of size %zu is returned as objects of size %zu", b.size, sizeof(T));
            if (objects_live) eng::fail("memory of the owner is returned while the object is alive");
            check(b);
            b.live = false;
            free(b.raw);
            return;
        }
        eng::fail("memory is returned to an allocator which does not come from it, or twice");
    }
    static void check(const Block& b) {
        size_t al = b.align < 8 ? 8 : b.align;
        auto before = static_cast<const unsigned char*>(b.raw), after = static_cast<const unsigned char*>(b.p) + b.n * b.size;
        for (size_t i = 0; i < al; ++i) if (before[i] != 0x5A) eng::fail("memory before the block was written");
        for (size_t i = 0; i < al; ++i) if (after[i] != 0x5A) eng::fail("memory after the block was written");
    }
};

// one which has to be given its state, and one which can be made from nothing, but is then another allocator
template <typename T> struct TA : TBase<T> {
    explicit TA(int i) noexcept : TBase<T>(i) {}
    template <typename U> TA(const TA<U>& o) noexcept : TBase<T>(o.id) {}
    bool operator==(const TA& o) const noexcept { return this->id == o.id; }
    bool operator!=(const TA& o) const noexcept { return this->id != o.id; }
};
template <typename T> struct TD : TBase<T> {
    TD() noexcept : TBase<T>(99) {}
    explicit TD(int i) noexcept : TBase<T>(i) {}
    template <typename U> TD(const TD<U>& o) noexcept : TBase<T>(o.id) {}
    TD(const TD&) noexcept = default;
    TD& operator=(const TD&) = delete;
    bool operator==(const TD& o) const noexcept { return this->id == o.id; }
    bool operator!=(const TD& o) const noexcept { return this->id != o.id; }
};

struct Elevens { unsigned char b[70000]; Elevens() { memset(b, 0x11, sizeof(b)); } } elevens_;
const unsigned char* const elevens = elevens_.b;

// ---- objects of every size and alignment ----
template <size_t S, size_t A> struct alignas(A) Obj {
    unsigned char b[S];
    Obj() { init(); }
    explicit Obj(int) { init(); }
    Obj(const Obj&) { init(); }
    void init() { ++objects_live; if (reinterpret_cast<uintptr_t>(this) % alignof(Obj)) eng::fail("an object of size %zu and alignment %zu is constructed at %p", sizeof(Obj), alignof(Obj), static_cast<void*>(this)); memset(b, 0x11, S); }
    ~Obj() {
        if (reinterpret_cast<uintptr_t>(this) % alignof(Obj)) eng::fail("an object is destroyed at an address which is not its own");
        if (memcmp(b, elevens, S)) eng::fail("the memory of an object of size %zu was written by someone else", sizeof(Obj));
        --objects_live;
    }
};
template <size_t S, size_t A> struct Poly : Obj<S, A> { virtual ~Poly() = default; };
template <typename F> void with_obj(uint8_t k, F f) {
#define O(i, S, A) case i: return f(static_cast<Obj<S, A>*>(nullptr))
    switch (k % 27) {
    O(0, 1, 1); O(1, 2, 1); O(2, 3, 1); O(3, 4, 4); O(4, 7, 1); O(5, 8, 8); O(6, 9, 1); O(7, 12, 4); O(8, 16, 16); O(9, 17, 8); O(10, 24, 8); O(11, 32, 32); O(12, 33, 1); O(13, 64, 64); O(14, 65, 64); O(15, 100, 4);
    O(16, 128, 128); O(17, 255, 1); O(18, 256, 256); O(19, 1000, 8); O(20, 4096, 16); O(21, 1, 512); O(22, 5000, 1); O(23, 40, 2);
    O(24, 8192, 8192); O(25, 70000, 4); O(26, 3000, 2048);
    }
#undef O
}
template <typename T> struct FnDel { static inline int calls; int tag[3] = {1, 2, 3}; void operator()(T* p) const { ++calls; if (tag[2] != 3) eng::fail("the deleter was damaged"); delete p; } };

template <template <typename> class S, template <typename> class W, typename CBF> struct Flavour { template <typename T> using sptr = S<T>; template <typename T> using wptr = W<T>; using cbf = CBF; };
using FA = Flavour<xmem::shared_ptr, xmem::weak_ptr, xmem::atomic_control_block_factory>;
using FL = Flavour<xmem::local_shared_ptr, xmem::local_weak_ptr, xmem::local_control_block_factory>;

enum { RESOURCE, RESOURCE_OW, UPTR, UPTR_DEL, MAKE, RAW, RAW_DEL, RAW_ARRAY, UNIQUE, UNIQUE_ARRAY, CONTAINER, RAWALLOC, HUGE_N, NKIND };
const char* kinds[] = {"object in a block of a user allocator", "the same for overwrite", "unique_ptr adopted with a user allocator", "unique_ptr with deleter adopted with a user allocator", "make function", "raw pointer", "raw pointer with deleter", "array", "unique_ptr", "unique_ptr of array",
    "container", "allocate and deallocate", "huge allocation"};
uint32_t seen;

// the pointers go through a few copies and moves, the last pointer is a shared or a weak one
template <typename F, typename T> void live_through(typename F::template sptr<T> p, const uint8_t* o, size_t want_align) {
    if (want_align && reinterpret_cast<uintptr_t>(p.get()) % want_align) eng::fail("the object is not aligned to %zu", want_align);
    typename F::template wptr<T> w;
    if (o[5] & 1) w = p;
    auto q = p;
    typename F::template sptr<const volatile void> v = std::move(q);
    if (o[5] & 2) { p.reset(); if (v.use_count() != 1) eng::fail("use_count is %ld", v.use_count()); v.reset(); }
    else { v.reset(); typename F::template sptr<T> r = std::move(p); r.reset(); }
    if (objects_live) eng::fail("%d objects are alive after their last owner is gone", objects_live);
    if ((o[5] & 1) && !w.expired()) eng::fail("the weak pointer did not expire");
    if (o[5] & 4) { auto w2 = w; w.reset(); }
}
struct MemCheck {
    uint64_t live; size_t base;
    MemCheck() : live(track::st.live), base(blocks.size()) { track::st.on = true; objects_live = 0; }
    ~MemCheck() noexcept(false) {
        track::st.on = false;
        if (objects_live) eng::fail("%d objects are left", objects_live);
        for (auto& b : blocks) if (b.live) eng::fail("a block of %zu bytes was not returned to its allocator", b.n * b.size);
        if (track::st.live != live) { char t[100]; track::describe_live(t, sizeof(t)); eng::fail("memory is left: %s", t); }
        blocks.clear();
    }
};
void from_user(size_t allocs_before) {
    if (blocks.size() != 1 || track::st.allocs != allocs_before) eng::fail("%zu blocks come from the user allocator and %llu from elsewhere, expected one", blocks.size(), static_cast<unsigned long long>(track::st.allocs - allocs_before));
}
template <typename F, template <typename> class A, typename T> void user_case(int k, const uint8_t* o) {
    using B = typename F::cbf;
    int id = o[3] % 5;
    switch (k) {
    case RESOURCE: {
        A<char> a(id);
        auto p = typename F::template sptr<T>(B::template make_resource_cb<T>(a));
        from_user(0);
        live_through<F, T>(std::move(p), o, alignof(T));
        break;
    }
    case RESOURCE_OW: {
        A<double> a(id);
        auto p = typename F::template sptr<T>(B::template make_resource_cb_for_overwrite<T>(a));
        from_user(0);
        live_through<F, T>(std::move(p), o, alignof(T));
        break;
    }
    case UPTR: {
        xmem::unique_ptr<T> u = xmem::make_unique<T>();
        auto before = track::st.allocs;
        auto p = typename F::template sptr<T>(B::make_uptr_cb(u, A<T>(id)));
        from_user(before);
        if (u) eng::fail("the adopted unique_ptr still owns");
        live_through<F, T>(std::move(p), o, alignof(T));
        break;
    }
    case UPTR_DEL: {
        using D = FnDel<T>;
        xmem::unique_ptr<T, D> u(new T);
        D::calls = 0;
        auto before = track::st.allocs;
        auto p = typename F::template sptr<T>(B::make_uptr_cb(u, A<char>(id)));
        from_user(before);
        live_through<F, T>(std::move(p), o, alignof(T));
        if (D::calls != 1) eng::fail("the deleter was called %d times", D::calls);
        break;
    }
    }
}
template <typename F, typename T> void owner_case(int k, const uint8_t* o) {
    if (k <= UPTR_DEL) return o[6] & 1 ? user_case<F, TA, T>(k, o) : user_case<F, TD, T>(k, o);
    switch (k) {
    case MAKE: {
        if constexpr (std::is_same_v<F, FA>) live_through<F, T>(o[4] & 1 ? xmem::make_shared<T>() : xmem::make_shared_for_overwrite<T>(), o, alignof(T));
        else live_through<F, T>(o[4] & 1 ? xmem::make_local_shared<T>() : xmem::make_local_shared_for_overwrite<T>(), o, alignof(T));
        break;
    }
    case RAW: live_through<F, T>(typename F::template sptr<T>(new T), o, alignof(T)); break;
    case RAW_DEL: {
        using D = FnDel<T>;
        D::calls = 0;
        live_through<F, T>(typename F::template sptr<T>(new T, D()), o, alignof(T));
        if (D::calls != 1) eng::fail("the deleter was called %d times", D::calls);
        break;
    }
    case RAW_ARRAY: {
        size_t n = o[4] % 6;
        typename F::template sptr<T[]> p;
        if (o[4] & 8) p = typename F::template sptr<T[]>(new T[n]);
        else if (o[4] & 16) p = typename F::template sptr<T[]>(xmem::make_unique<T[]>(n));
        else p.reset(new T[n]);
        if (objects_live != int(n)) eng::fail("%d elements are alive", objects_live);
        live_through<F, T[]>(std::move(p), o, alignof(T));
        break;
    }
    case UNIQUE: { auto u = o[4] & 1 ? xmem::make_unique<T>() : xmem::make_unique_for_overwrite<T>(); if (reinterpret_cast<uintptr_t>(u.get()) % alignof(T)) eng::fail("the object is not aligned"); if (o[4] & 2) u.reset(new T); if (o[4] & 4) { auto v = std::move(u); } break; }
    case UNIQUE_ARRAY: { auto u = o[4] & 1 ? xmem::make_unique<T[]>(o[3] % 6) : xmem::make_unique_for_overwrite<T[]>(o[3] % 6); if (o[4] & 2) u.reset(new T[2]); if (o[4] & 4) { auto v = std::move(u); } break; }
    case RAWALLOC: {
        xmem::allocator<T> a;
        xmem::allocator<int> other;
        xmem::allocator<T> b(other);
        eng::hvec<std::pair<T*, size_t>> got;
        for (int i = 0; i < 6; ++i) {
            size_t n = size_t(o[2 + i] % 9) * (o[2 + i] > 240 ? 100 : 1);
            if (n * sizeof(T) > 300000) n = 300000 / sizeof(T);
            T* p = i & 1 ? a.allocate(n) : std::allocator_traits<xmem::allocator<T>>::allocate(b, n);
            if (!p) eng::fail("allocate(%zu) returns null", n);
            if (reinterpret_cast<uintptr_t>(p) % alignof(T)) eng::fail("allocate(%zu) of a type with alignment %zu returns %p", n, alignof(T), static_cast<void*>(p));
            if (track::is_block(p) && track::block_size(p) < n * sizeof(T)) eng::fail("allocate(%zu) of a type of size %zu makes room for %zu bytes", n, sizeof(T), track::block_size(p));
            memset(static_cast<void*>(p), i, n * sizeof(T));
            for (auto& g : got) if (g.first == p) eng::fail("allocate returns the same storage twice");
            got.push_back({p, n});
        }
        for (size_t i = 0; i < got.size(); ++i) {
            auto c = reinterpret_cast<unsigned char*>(got[i].first);
            size_t bytes = got[i].second * sizeof(T);
            if (bytes && (c[0] != i || memcmp(c, c + 1, bytes - 1))) eng::fail("allocations overlap");
        }
        for (size_t i = got.size(); i-- > 0;) { if (o[3] & 1) a.deallocate(got[i].first, got[i].second); else std::allocator_traits<xmem::allocator<T>>::deallocate(b, got[i].first, got[i].second); }
        break;
    }
    case HUGE_N: {
        // n * sizeof(T) does not fit, or nobody has that much
        xmem::allocator<T> a;
        size_t max = std::numeric_limits<size_t>::max();
        size_t quot = max / sizeof(T);
        static const int delta[] = {-2, -1, 0, 1, 2, 3, 9};
        size_t n;
        switch (o[3] % 5) {
        case 0: n = max - o[4]; break;
        case 1: n = quot + size_t(delta[o[4] % 7]); if (quot == max) n = max; break;
        case 2: n = max / 2 + size_t(delta[o[4] % 7]); break;
        case 3: n = quot * (1 + o[4] % 7) + 1 + o[5] % 50; if (quot == max) n = max; break;   // wraps around to little
        default: n = (size_t(1) << (46 + o[4] % 18)) + o[5] % 3; break;
        }
        if (n < (size_t(1) << 45) / sizeof(T)) break;
        bool threw = false;
        try { T* p = a.allocate(n); (void)p; } catch (const std::bad_alloc&) { threw = true; }
        if (!threw) eng::fail("allocate(%zu) of objects of size %zu does not throw", n, sizeof(T));
        break;
    }
    }
}
// the same operations on a container with the library's allocator and with another one
// (nothing which compares allocators: xmem::allocator has no ==)
template <typename C1, typename C2> void same(const C1& a, const C2& b, const char* what) {
    if (a.size() != b.size() || !std::equal(a.begin(), a.end(), b.begin())) eng::fail("%s with xmem::allocator has other contents", what);
}
void containers(const uint8_t* o) {
    eng::Rng r(o[2] | uint64_t(o[3]) << 8 | uint64_t(o[4]) << 16);
    int n = 1 + o[5] % 40;
    switch (o[6] % 5) {
    case 0: {
        std::vector<uint64_t, xmem::allocator<uint64_t>> a; eng::hvec<uint64_t> b, b2;
        for (int i = 0; i < n; ++i) { uint64_t v = r.next(); switch (v % 7) { case 0: case 1: case 2: a.push_back(v); b.push_back(v); break; case 3: a.insert(a.begin(), 3, v); b.insert(b.begin(), 3, v); break; case 4: { auto a3 = a; a3.push_back(v); b2 = b; b2.push_back(v); same(a3, b2, "vector"); break; } case 5: { auto a3 = std::move(a); a = std::move(a3); break; } default: a.reserve(a.size() + v % 100); a.erase(a.begin(), a.begin() + long(a.size() / 2)); b.erase(b.begin(), b.begin() + long(b.size() / 2)); } }
        same(a, b, "vector"); break;
    }
    case 1: {
        std::list<std::string, xmem::allocator<std::string>> a; std::list<std::string> b;
        for (int i = 0; i < n; ++i) { auto v = r.next(); std::string s(v % 40, char('a' + v % 26)); switch (v % 5) { case 0: case 1: a.push_back(s); b.push_back(s); break; case 2: a.push_front(s); b.push_front(s); break; case 3: if (!a.empty()) { a.pop_front(); b.pop_front(); } break; default: a.reverse(); b.reverse(); } }
        same(a, b, "list"); break;
    }
    case 2: {
        std::map<int, Obj<33, 1>, std::less<int>, xmem::allocator<std::pair<const int, Obj<33, 1>>>> a; std::set<int> b;
        for (int i = 0; i < n; ++i) { int v = int(r.below(20)); if (r.below(3)) { a[v]; b.insert(v); } else { a.erase(v); b.erase(v); } }
        auto c = a;
        if (a.size() != b.size() || c.size() != b.size()) eng::fail("map with xmem::allocator has other contents");
        break;
    }
    case 3: {
        std::deque<short, xmem::allocator<short>> a; std::deque<short> b;
        for (int i = 0; i < n * 20; ++i) { short v = short(r.next()); if (v % 3) { a.push_back(v); b.push_back(v); } else if (v & 1) { a.push_front(v); b.push_front(v); } else if (!a.empty()) { a.pop_back(); b.pop_back(); } }
        same(a, b, "deque"); break;
    }
    default: {
        using A = Obj<64, 64>;
        std::vector<A, xmem::allocator<A>> v;
        std::unordered_map<int, int, std::hash<int>, std::equal_to<int>, xmem::allocator<std::pair<const int, int>>> a; std::map<int, int> b;
        for (int i = 0; i < n; ++i) { int k = int(r.below(30)); a[k] = i; b[k] = i; v.emplace_back(k); if (reinterpret_cast<uintptr_t>(v.data()) % 64) eng::fail("elements of a vector with xmem::allocator are not aligned"); }
        if (a.size() != b.size()) eng::fail("unordered_map with xmem::allocator has other contents");
        for (auto& e : b) if (a.at(e.first) != e.second) eng::fail("unordered_map with xmem::allocator has other contents");
        break;
    }
    }
}
void gen(eng::Rng& r, const std::string&, uint64_t, eng::bytes& out) {
    int n = int(r.range(2, 8));
    for (int i = 0; i < n; ++i) {
        uint8_t op[8];
        for (auto& b : op) b = r.byte();
        op[0] = uint8_t(r.below(NKIND));
        out.insert(out.end(), op, op + 8);
    }
}
void run(const std::string&, const uint8_t* d, size_t n) {
    track::reset();
    blocks.clear();
    seen = 0;
    for (size_t i = 0; i + 8 <= n; i += 8) {
        auto o = d + i;
        int k = o[0] % NKIND;
        seen |= 1u << k;
        eng::count("blocks of memory asked for");
        track::st.allocs = 0;
        MemCheck m;
        if (k == CONTAINER) containers(o);
        else with_obj(o[1], [&](auto* t) {
            using T = std::remove_pointer_t<decltype(t)>;
            if (o[7] & 1) owner_case<FA, T>(k, o); else owner_case<FL, T>(k, o);
        });
    }
    for (int k = 0; k < NKIND; ++k) if (seen >> k & 1) eng::label(kinds[k]);
    if (n >= 16) eng::nontrivial();
}
std::string describe(const std::string&, const uint8_t* d, size_t n) {
    std::string s;
    for (size_t i = 0; i + 8 <= n; i += 8) {
        auto o = d + i;
        appendf(s, "%s%s%s (", i ? "; " : "", o[7] & 1 ? "" : "local: ", kinds[o[0] % NKIND]);
        with_obj(o[1], [&](auto* t) { appendf(s, "size %zu, alignment %zu", sizeof(*t), alignof(std::remove_pointer_t<decltype(t)>)); });
        appendf(s, "; %d, %d, %d, %d, %d)", o[2], o[3], o[4], o[5], o[6]);
    }
    return s;
}
} // namespace
const Topic topic_alloc{8, gen, run, describe};
