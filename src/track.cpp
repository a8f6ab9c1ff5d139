#include "track.hpp"
#include "engine.hpp"
#include <new>
#include <cstdlib>
#include <cstring>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define TRACK_ASAN
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define TRACK_ASAN
#endif
#ifdef TRACK_ASAN
#include <sanitizer/asan_interface.h>
static void unpoison(void* p, size_t n) { __asan_unpoison_memory_region(p, n); }
#else
static void unpoison(void*, size_t) {}
#endif

namespace track {
State st;

namespace {
enum Form : uint8_t { Scalar = 0, Array = 1 };
struct Entry { void* p; size_t size; size_t align; int tag; uint8_t form; };
Entry* tab = nullptr;
size_t cap = 0, used = 0;
constexpr int MAXTAG = 4096;
uint32_t tagcount[MAXTAG];
int maxtag = 0;
void tag_add(int t) { if (t > 0 && t < MAXTAG) { if (t > maxtag) maxtag = t; if (tagcount[t]++ == 0) ++st.tags_live; } }
void tag_sub(int t) { if (t > 0 && t < MAXTAG) { if (--tagcount[t] == 0) --st.tags_live; } }
void* const TOMB = reinterpret_cast<void*>(1);

size_t hash(const void* p) { auto x = reinterpret_cast<uintptr_t>(p) >> 4; return size_t(x * 0x9E3779B97F4A7C15ull >> 20); }

void put_raw(Entry e) {
    size_t i = hash(e.p) & (cap - 1);
    while (tab[i].p && tab[i].p != TOMB) i = (i + 1) & (cap - 1);
    if (!tab[i].p) ++used;
    tab[i] = e;
}
void grow() {
    size_t ocap = cap;
    Entry* o = tab;
    size_t n = 0;
    for (size_t i = 0; i < ocap; ++i) if (o[i].p && o[i].p != TOMB) ++n;
    size_t want = 256;
    while (want < n * 4) want *= 2;
    cap = want;
    tab = static_cast<Entry*>(calloc(cap, sizeof(Entry)));
    used = 0;
    for (size_t i = 0; i < ocap; ++i) if (o[i].p && o[i].p != TOMB) put_raw(o[i]);
    free(o);
}
Entry* find(const void* p) {
    if (!cap || !p) return nullptr;
    size_t i = hash(p) & (cap - 1);
    while (tab[i].p) { if (tab[i].p == p) return &tab[i]; i = (i + 1) & (cap - 1); }
    return nullptr;
}

// may return null when refused
void* alloc(size_t size, size_t align, Form form) {
    if (st.on) {
        ++st.allocs;
        if (st.limit && size > st.limit) { st.refused = size; return nullptr; }
        if (st.forbid) { st.fired = true; return nullptr; }
        if (st.fail_in > 0 && --st.fail_in == 0) { st.fired = true; return nullptr; }
    }
    if (size > (size_t(1) << 40)) return nullptr;
    void* p;
    if (align) {
        size_t a = align < sizeof(void*) ? sizeof(void*) : align;
        if (posix_memalign(&p, a, size ? size : 1)) return nullptr;
    }
    else p = malloc(size ? size : 1);
    if (!p) return nullptr;
    if (st.on) {
        if (size <= 1 << 16) memset(p, 0xA5, size);
        if (!cap || (used + 1) * 2 > cap) grow();
        put_raw({p, size, align, st.tag, form});
        tag_add(st.tag);
        ++st.live;
        st.live_bytes += size;
    }
    return p;
}

void dealloc(void* p, Form form, bool sized, size_t size, size_t align) {
    if (!p) return;
    if (Entry* e = find(p)) {
        if (e->form != form)
            eng::fail("memory obtained by %s is released by %s", e->form ? "new[]" : "new", form ? "delete[]" : "delete");
        if (sized && e->size != size)
            eng::fail("memory of size %zu is released with size %zu", e->size, size);
        if (e->align != align)
            eng::fail("memory obtained with alignment argument %zu is released with alignment argument %zu (0: none)", e->align, align);
        --st.live;
        tag_sub(e->tag);
        st.live_bytes -= e->size;
        e->p = TOMB;
        size_t n = e->size;
        if (n <= 1 << 16) {
            unpoison(p, n); // array cookies are poisoned
            memset(p, 0xD7, n);
        }
    }
    free(p);
}
} // namespace

void reset() {
    if (tab && (used > 1024 || st.live)) { free(tab); tab = nullptr; cap = used = 0; }
    else if (tab) { memset(static_cast<void*>(tab), 0, cap * sizeof(Entry)); used = 0; }
    for (int i = 0; i <= maxtag; ++i) tagcount[i] = 0;
    maxtag = 0;
    st = State{};
}
uint64_t live_with_tag(int tag) {
    uint64_t n = 0;
    for (size_t i = 0; i < cap; ++i) if (tab[i].p && tab[i].p != TOMB && tab[i].tag == tag) ++n;
    return n;
}
bool is_block(const void* p) { return find(p); }
size_t block_size(const void* p) { auto e = find(p); return e ? e->size : 0; }
void describe_live(char* buf, size_t n) {
    for (size_t i = 0; i < cap; ++i) if (tab[i].p && tab[i].p != TOMB) {
        snprintf(buf, n, "a block of %zu bytes (tag %d, %s)", tab[i].size, tab[i].tag, tab[i].form ? "new[]" : "new");
        return;
    }
    snprintf(buf, n, "none");
}
} // namespace track

using namespace track;
#define THROWING(expr) void* p = expr; if (!p) throw std::bad_alloc(); return p
void* operator new(size_t n) { THROWING(alloc(n, 0, Scalar)); }
void* operator new[](size_t n) { THROWING(alloc(n, 0, Array)); }
void* operator new(size_t n, std::align_val_t a) { THROWING(alloc(n, size_t(a), Scalar)); }
void* operator new[](size_t n, std::align_val_t a) { THROWING(alloc(n, size_t(a), Array)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0, Scalar); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0, Array); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return alloc(n, size_t(a), Scalar); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return alloc(n, size_t(a), Array); }
void operator delete(void* p) noexcept { dealloc(p, Scalar, false, 0, 0); }
void operator delete[](void* p) noexcept { dealloc(p, Array, false, 0, 0); }
void operator delete(void* p, size_t n) noexcept { dealloc(p, Scalar, true, n, 0); }
void operator delete[](void* p, size_t n) noexcept { dealloc(p, Array, true, n, 0); }
void operator delete(void* p, std::align_val_t a) noexcept { dealloc(p, Scalar, false, 0, size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { dealloc(p, Array, false, 0, size_t(a)); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { dealloc(p, Scalar, true, n, size_t(a)); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { dealloc(p, Array, true, n, size_t(a)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, Scalar, false, 0, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, Array, false, 0, 0); }
