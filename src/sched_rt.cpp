#include "sched_rt.hpp"
#include "engine.hpp"
#include <new>
#include <sys/mman.h>
#include <dlfcn.h>
#include <pthread.h>
#include <cerrno>

namespace rt {
Stats stats;
namespace {
constexpr size_t ARENA = 1 << 17;
constexpr size_t STACK = 256 << 10;
alignas(4096) unsigned char arena[ARENA];
size_t top = 0, dirty = 0;

using Clk = uint16_t;
struct VC {
    Clk c[MAXT];
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Shadow { Clk w[MAXT], r[MAXT], aw[MAXT], ar[MAXT]; };
Shadow* shadow;                       // one for each byte of the arena
uint8_t state[ARENA];                 // 0: never allocated, 1: allocated, 2: released
uint16_t loc_of[ARENA];               // index of the atomic location + 1
struct Block { uint32_t off, size, align; uint8_t form; bool live; uint8_t tid, ftid; };
eng::hvec<Block> blocks;

struct Store { uint64_t val; uint8_t tid; Clk clk; uint32_t step; VC sync; };
struct Obs { uint8_t tid; Clk clk; uint32_t idx; };
struct Loc { uint32_t off; uint8_t size; uint8_t users; int last; eng::hvec<Store> hist; eng::hvec<Obs> obs; };
eng::hvec<Loc> locs;
size_t nlocs = 0;

struct Thread {
    void* sp; unsigned char* stack; bool done; void* blocked;
    VC vc, rel_fence, acq_pending;
    uint32_t floor;                   // stores before this step are visible (seq_cst fence)
    const void* spin_addr; uint64_t spin_val; int spin_kind, spins;
};
Thread th[MAXT];
bool active = false, in_threads = false;
int cur = 0, nthr = 0;
bool quiet_ = false;
uint32_t step = 0, events = 0, step_limit = 0;
void (*body_fn)(int, void*);
void* body_arg;

// the schedule
struct Rnd { uint64_t s; uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 32) * n >> 32) : 0; } } rnd;
bool mode_random, fair;
uint8_t p_switch, p_weak, p_stale;
const uint8_t* gaps;
int gap_i, gap_left;
struct VMutex { const void* a; int owner; int depth; VC vc; };
eng::hvec<VMutex> mutexes;

extern "C" void rt_switch(void** save, void* load);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size rt_switch, .-rt_switch
)");

bool in_arena(const volatile void* p) { auto c = static_cast<const volatile unsigned char*>(p); return c >= arena && c < arena + ARENA; }
bool seen(const volatile void* p) { return active && !quiet_ && in_arena(p); }
size_t off_of(const volatile void* p) { return size_t(static_cast<const volatile unsigned char*>(p) - arena); }
const Block* block_at(size_t off) {
    for (size_t i = blocks.size(); i-- > 0;) if (off >= blocks[i].off && off < blocks[i].off + (blocks[i].size ? blocks[i].size : 1)) return &blocks[i];
    return nullptr;
}
void where(char* b, size_t n, size_t off) {
    auto k = block_at(off);
    if (k) snprintf(b, n, "byte %zu of block %d (%u bytes, allocated by thread %d)", off - k->off, int(k - blocks.data()) + 1, k->size, k->tid);
    else snprintf(b, n, "memory outside of every block");
}
[[noreturn]] void bad_access(size_t off, const char* what) {
    char b[200];
    where(b, sizeof(b), off);
    auto k = block_at(off);
    if (k && !k->live) eng::fail("thread %d: %s of %s, which thread %d has released", cur, what, b, k->ftid);
    eng::fail("thread %d: %s of %s", cur, what, b);
}
[[noreturn]] void race(size_t off, const char* what, int other, const char* before) {
    char b[200];
    where(b, sizeof(b), off);
    eng::fail("data race: %s by thread %d of %s is not ordered after %s by thread %d", what, cur, b, before, other);
}

void switch_to(int t) {
    int old = cur;
    if (t == old) return;
    ++stats.switches;
    if (eng::verbose()) fprintf(stderr, "    -- switch from thread %d to thread %d (step %u)\n", old, t, step);
    cur = t;
    rt_switch(&th[old].sp, th[t].sp);
}
int runnable(int except, int k) {  // the k-th runnable thread other than except, 0 when there is none
    int n = 0;
    for (int i = 1; i <= nthr; ++i) if (i != except && !th[i].done && !th[i].blocked) ++n;
    if (!n) return 0;
    k %= n;
    for (int i = 1; i <= nthr; ++i) if (i != except && !th[i].done && !th[i].blocked && k-- == 0) return i;
    return 0;
}
int next_round(int from) {
    for (int k = 1; k <= nthr; ++k) { int i = (from - 1 + k) % nthr + 1; if (i != from && !th[i].done && !th[i].blocked) return i; }
    return 0;
}
void give_way() {  // the current thread cannot go on
    int t = (mode_random || fair) ? runnable(cur, int(rnd.below(1000))) : next_round(cur);
    if (t) { ++stats.forced; switch_to(t); }
}
void point() {
    if (!active || quiet_) return;
    ++step; ++events;
    if (!in_threads || cur == 0) return;
    ++stats.steps;
    if (step > step_limit) {
        if (!fair) { fair = true; step_limit = step + 20000; p_stale = 0; p_weak = 0; if (eng::verbose()) fprintf(stderr, "    -- no end in sight: random schedule from here\n"); }
        else eng::fail("the threads do not come to an end: thread %d is at a lock or loop which nobody ends", cur);
    }
    if (th[cur].spins >= 2) { th[cur].spins = 0; give_way(); return; }
    int t = 0;
    if (fair) t = rnd.below(2) ? runnable(cur, int(rnd.below(1000))) : 0;
    else if (mode_random) { if (rnd.below(256) < p_switch) t = runnable(cur, int(rnd.below(1000))); }
    else if (gap_i < 8) {
        if (gap_left == 0) { t = runnable(cur, gaps[2 * gap_i + 1]); ++gap_i; gap_left = gap_i < 8 ? gaps[2 * gap_i] : 0; }
        else --gap_left;
    }
    if (t) { ++stats.preempted; switch_to(t); }
}
void note_spin(const volatile void* a, int kind, uint64_t val, bool changed) {
    Thread& t = th[cur];
    auto p = const_cast<const void*>(a);
    if (!changed && t.spin_addr == p && t.spin_val == val && t.spin_kind == kind) ++t.spins;
    else { t.spins = 0; t.spin_addr = changed ? nullptr : p; t.spin_val = val; t.spin_kind = kind; }
}
Clk& myclk() { return th[cur].vc.c[cur]; }
void bump() { if (in_threads || cur == 0) { if (myclk() < 65000) ++myclk(); else eng::fail("clock overflow"); } }

// ---- accesses ----
void plain(const volatile void* p, size_t n, bool write) {
    if (!seen(p)) return;
    size_t off = off_of(p);
    const VC& v = th[cur].vc;
    for (size_t i = off; i < off + n; ++i) {
        if (i >= ARENA || state[i] != 1) bad_access(i, write ? "write" : "read");
        Shadow& s = shadow[i];
        if (loc_of[i] && write) { Loc& l = locs[loc_of[i] - 1]; l.hist.clear(); l.obs.clear(); }
        for (int u = 0; u <= nthr; ++u) {
            if (u == cur) continue;
            const char* what = write ? "the write" : "the read";
            if (s.w[u] > v.c[u]) race(i, what, u, "the write");
            if (s.aw[u] > v.c[u]) race(i, what, u, "the atomic write");
            if (write) {
                if (s.r[u] > v.c[u]) race(i, what, u, "the read");
                if (s.ar[u] > v.c[u]) race(i, what, u, "the atomic read");
            }
        }
        (write ? s.w : s.r)[cur] = v.c[cur];
    }
}
bool atomic_shadow(const volatile void* p, size_t n, bool write) {
    if (!seen(p)) return false;
    size_t off = off_of(p);
    const VC& v = th[cur].vc;
    for (size_t i = off; i < off + n; ++i) {
        if (i >= ARENA || state[i] != 1) bad_access(i, write ? "atomic write" : "atomic read");
        Shadow& s = shadow[i];
        for (int u = 0; u <= nthr; ++u) {
            if (u == cur) continue;
            const char* what = write ? "the atomic write" : "the atomic read";
            if (s.w[u] > v.c[u]) race(i, what, u, "the write");
            if (write && s.r[u] > v.c[u]) race(i, what, u, "the read");
        }
        (write ? s.aw : s.ar)[cur] = v.c[cur];
    }
    return true;
}
Loc& loc(const volatile void* p, size_t n) {
    size_t off = off_of(p);
    if (!loc_of[off]) {
        if (nlocs == locs.size()) locs.emplace_back();
        Loc& l = locs[nlocs++];
        l.off = uint32_t(off); l.size = uint8_t(n); l.users = 0; l.last = -1;
        l.hist.clear(); l.obs.clear();
        for (size_t i = 0; i < n; ++i) loc_of[off + i] = uint16_t(nlocs);
    }
    Loc& l = locs[loc_of[off] - 1];
    if (l.hist.empty()) {
        Store s{};
        memcpy(&s.val, const_cast<const void*>(p), n);
        l.hist.push_back(s);
    }
    if (in_threads) { if (l.last >= 0 && l.last != cur && cur) ++stats.contended; l.last = cur; }
    return l;
}
bool acquires(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void take(const VC& s, int mo) { if (acquires(mo)) th[cur].vc.join(s); else th[cur].acq_pending.join(s); }

template <typename T> void show(const char* what, const volatile T* a, T old, T now_, int mo) {
    if (!eng::verbose() || !active || quiet_) return;
    static const char* m[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"};
    if (in_arena(a)) { auto k = block_at(off_of(a)); fprintf(stderr, "    thread %d: %s %s of byte %zu of block %d: %llu -> %llu\n", cur, m[mo % 6], what, k ? off_of(a) - k->off : 0, k ? int(k - blocks.data()) + 1 : 0, static_cast<unsigned long long>(old), static_cast<unsigned long long>(now_)); }
}
template <typename T> T load(const volatile T* a, int mo) {
    mo &= 0xFFFF;
    point();
    if (!atomic_shadow(a, sizeof(T), false)) { T v = *a; if (active) note_spin(a, 1, uint64_t(v), false); return v; }
    Loc& l = loc(a, sizeof(T));
    uint32_t last = uint32_t(l.hist.size() - 1), idx = last;
    if (p_stale && in_threads && cur && last > 0 && mo != __ATOMIC_SEQ_CST && rnd.below(256) < p_stale) {
        uint32_t lo = 0;
        const Thread& t = th[cur];
        for (uint32_t i = 0; i <= last; ++i) if (l.hist[i].clk <= t.vc.c[l.hist[i].tid] || l.hist[i].step <= t.floor) lo = i;
        for (auto& o : l.obs) if (o.clk <= t.vc.c[o.tid] && o.idx > lo) lo = o.idx;
        idx = lo + rnd.below(last - lo + 1);
        if (idx != last) ++stats.stale;
    }
    T v = T(l.hist[idx].val);
    take(l.hist[idx].sync, mo);
    l.obs.push_back({uint8_t(cur), myclk(), idx});
    show("load", a, v, v, mo);
    if (idx != last && eng::verbose()) fprintf(stderr, "      (an older value)\n");
    bump();
    note_spin(a, 1, uint64_t(v), false);
    return v;
}
template <typename T> void push(Loc& l, volatile T* a, T v, const VC& sync) {
    Store s{};
    s.val = uint64_t(v); s.tid = uint8_t(cur); s.clk = myclk(); s.step = step; s.sync = sync;
    l.hist.push_back(s);
    *a = v;
}
template <typename T> void store(volatile T* a, T v, int mo) {
    mo &= 0xFFFF;
    point();
    if (!atomic_shadow(a, sizeof(T), true)) { *a = v; if (active) note_spin(a, 2, 0, true); return; }
    Loc& l = loc(a, sizeof(T));
    show("store", a, T(l.hist.back().val), v, mo);
    push(l, a, v, releases(mo) ? th[cur].vc : th[cur].rel_fence);
    bump();
    note_spin(a, 2, 0, true);
}
template <typename T, typename F> T rmw_(volatile T* a, int mo, const char* name, F f) {  // after point()
    if (!atomic_shadow(a, sizeof(T), true)) { T o = *a; T n = f(o); *a = n; if (active) note_spin(a, 3, uint64_t(o), n != o); return o; }
    Loc& l = loc(a, sizeof(T));
    Store last = l.hist.back();
    T o = T(last.val), n = f(o);
    take(last.sync, mo);
    VC sync = last.sync;
    sync.join(releases(mo) ? th[cur].vc : th[cur].rel_fence);
    push(l, a, n, sync);
    show(name, a, o, n, mo);
    bump();
    note_spin(a, 3, uint64_t(o), n != o);
    return o;
}
template <typename T, typename F> T rmw(volatile T* a, int mo, const char* name, F f) { mo &= 0xFFFF; point(); return rmw_(a, mo, name, f); }
template <typename T> bool cas(volatile T* a, T* expected, T desired, int mo, int fmo, bool weak) {
    mo &= 0xFFFF; fmo &= 0xFFFF;
    point();
    bool spurious = weak && p_weak && in_threads && cur && rnd.below(256) < p_weak;
    T v;
    if (!seen(a)) v = *a;
    else { if (!atomic_shadow(a, sizeof(T), false)) abort(); v = T(loc(a, sizeof(T)).hist.back().val); }
    if (v == *expected && !spurious) { rmw_(a, mo, "compare-exchange", [&](T) { return desired; }); return true; }
    if (spurious) ++stats.weak_failed;
    if (seen(a)) {
        Loc& l = loc(a, sizeof(T));
        take(l.hist.back().sync, fmo);
        l.obs.push_back({uint8_t(cur), myclk(), uint32_t(l.hist.size() - 1)});
        show(spurious ? "spuriously failing weak compare-exchange" : "failing compare-exchange", a, v, v, fmo);
        bump();
    }
    *expected = v;
    note_spin(a, 4, uint64_t(v), false);
    return false;
}
void fence(int mo) {
    mo &= 0xFFFF;
    point();
    if (!active) return;
    Thread& t = th[cur];
    if (acquires(mo)) t.vc.join(t.acq_pending);
    if (releases(mo)) t.rel_fence = t.vc;
    if (mo == __ATOMIC_SEQ_CST) t.floor = step;
    bump();
}

// ---- memory ----
void* arena_alloc(size_t n, size_t align, uint8_t form) {
    size_t a = align < 16 ? 16 : align;
    size_t off = (top + 16 + a - 1) / a * a;    // at least 16 bytes between blocks
    if (off + n + 16 > ARENA) eng::fail("the program needs more than %zu bytes of memory", ARENA);
    memset(state + off, 1, n);
    memset(arena + off, 0xA5, n);
    top = off + n;
    if (n == 0) ++top;
    blocks.push_back({uint32_t(off), uint32_t(n), uint32_t(align), form, true, uint8_t(cur), 0});
    return arena + off;
}
void arena_free(void* p, size_t align, uint8_t form, bool sized, size_t n) {
    size_t off = off_of(p);
    for (size_t i = 0; i < blocks.size(); ++i) {
        Block& b = blocks[i];
        if (b.off != off) continue;
        if (!b.live) eng::fail("thread %d: block %zu (%u bytes) is released twice, first by thread %d", cur, i + 1, b.size, b.ftid);
        if (b.form != form || b.align != align || (sized && n != b.size)) eng::fail("block %zu (%u bytes) is released in another way than it was obtained", i + 1, b.size);
        plain(p, b.size, true);                  // whoever used it must have done so before
        memset(state + off, 2, b.size);
        memset(arena + off, 0xD7, b.size);
        b.live = false;
        b.ftid = uint8_t(cur);
        return;
    }
    eng::fail("thread %d: something is released which was never allocated", cur);
}
void* alloc(size_t n, size_t align, uint8_t form) {
    if (active) return arena_alloc(n, align, form);
    void* p;
    if (align > 16) { if (posix_memalign(&p, align, n ? n : 1)) abort(); }
    else p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void dealloc(void* p, size_t align, uint8_t form, bool sized, size_t n) {
    if (!p) return;
    if (in_arena(p)) { if (active) arena_free(p, align, form, sized, n); return; }
    free(p);
}

[[noreturn]] void entry() {
    body_fn(cur, body_arg);
    th[cur].done = true;
    int t;
    if (mode_random || fair) t = runnable(cur, int(rnd.below(1000))); else t = next_round(cur);
    if (!t) {
        for (int i = 1; i <= nthr; ++i) if (!th[i].done) eng::fail("thread %d waits for a mutex which nobody will release", i);
        t = 0;
    }
    int old = cur;
    cur = t;
    rt_switch(&th[old].sp, th[t].sp);
    abort();
}
} // namespace

void begin(const uint8_t* h) {
    if (!shadow) {
        shadow = static_cast<Shadow*>(mmap(nullptr, ARENA * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (shadow == MAP_FAILED) abort();
        for (auto& t : th) {
            t.stack = static_cast<unsigned char*>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (t.stack == MAP_FAILED) abort();
        }
        locs.reserve(64);
    }
    size_t d = dirty + 64 < ARENA ? dirty + 64 : ARENA;
    memset(static_cast<void*>(shadow), 0, d * sizeof(Shadow));
    memset(state, 0, d);
    memset(loc_of, 0, d * sizeof(loc_of[0]));
    top = 0; nlocs = 0; blocks.clear(); mutexes.clear();
    stats = Stats{};
    for (int i = 0; i < MAXT; ++i) { Thread& t = th[i]; t.vc = t.rel_fence = t.acq_pending = VC{}; t.vc.c[i] = 1; t.done = false; t.blocked = nullptr; t.floor = 0; t.spin_addr = nullptr; t.spins = 0; }
    cur = 0; nthr = 0; in_threads = false; step = 1; events = 1;
    mode_random = h[0] & 1;
    uint64_t seed = 0;
    memcpy(&seed, h + 1, 4);
    rnd.s = seed * 0x9E3779B97F4A7C15ull + 12345;
    p_switch = h[5]; p_weak = h[6]; p_stale = h[7];
    if (p_weak > 200) p_weak = 200;
    if (p_stale > 200) p_stale = 200;
    gaps = h + 8; gap_i = 0; gap_left = gaps[0];
    fair = false;
    quiet_ = false;
    active = true;
}
void run(int n, void (*body)(int, void*), void* arg) {
    if (n < 1 || n >= MAXT) abort();
    nthr = n;
    body_fn = body; body_arg = arg;
    bump();
    for (int i = 1; i <= n; ++i) {
        Thread& t = th[i];
        t.vc = th[0].vc;
        t.vc.c[i] = 1;
        t.done = false;
        auto sp = reinterpret_cast<void**>(t.stack + STACK - 64);
        *--sp = nullptr;                         // the return address of entry; keeps the stack aligned
        *--sp = reinterpret_cast<void*>(&entry);
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        t.sp = sp;
    }
    step_limit = step + 6000;
    bump();
    in_threads = true;
    int first = mode_random ? 1 + int(rnd.below(uint32_t(n))) : 1;
    cur = first;
    rt_switch(&th[0].sp, th[first].sp);
    in_threads = false;
    cur = 0;
    for (int i = 1; i <= n; ++i) th[0].vc.join(th[i].vc);
}
void end() { active = false; dirty = top; }
int tid() { return cur; }
uint32_t now() { return events; }
uint32_t tick() { return ++events; }
uint64_t live_blocks() { uint64_t n = 0; for (auto& b : blocks) n += b.live; return n; }
size_t mark() { return blocks.size(); }
uint64_t live_since(size_t m) { uint64_t n = 0; for (size_t i = m; i < blocks.size(); ++i) n += blocks[i].live; return n; }
void describe_live(char* buf, size_t n) {
    for (size_t i = blocks.size(); i-- > 0;) if (blocks[i].live) { snprintf(buf, n, "block %zu of %u bytes, allocated by thread %d", i + 1, blocks[i].size, blocks[i].tid); return; }
    snprintf(buf, n, "none");
}
void say(const char* fmt, ...) {
    if (!eng::verbose()) return;
    va_list a;
    va_start(a, fmt);
    fprintf(stderr, "  thread %d: ", cur);
    vfprintf(stderr, fmt, a);
    fputc('\n', stderr);
    va_end(a);
}
void quiet(bool on) {
    quiet_ = on;
    if (!on) for (size_t i = 0; i < nlocs; ++i) if (!locs[i].hist.empty()) memcpy(&locs[i].hist.back().val, arena + locs[i].off, locs[i].size);
}
void allow_steps(uint32_t n) { step_limit = step + n; }

static void block_on(const void* m) {
    th[cur].blocked = const_cast<void*>(m);
    int t = (mode_random || fair) ? runnable(cur, int(rnd.below(1000))) : next_round(cur);
    if (!t) eng::fail("deadlock: thread %d waits for a mutex which nobody will release", cur);
    ++stats.forced;
    switch_to(t);
}
static VMutex& vmutex(const void* a) {
    for (auto& m : mutexes) if (m.a == a) return m;
    mutexes.push_back({a, -1, 0, VC{}});
    return mutexes.back();
}
static int vlock(const void* a, bool try_only) {
    point();
    while (vmutex(a).owner >= 0) {
        if (try_only) return EBUSY;
        block_on(a);
    }
    auto& m = vmutex(a);
    m.owner = cur;
    th[cur].vc.join(m.vc);
    bump();
    return 0;
}
static int vunlock(const void* a) {
    auto& m = vmutex(a);
    if (m.owner != cur) eng::fail("thread %d unlocks a mutex of thread %d", cur, m.owner);
    m.owner = -1;
    m.vc = th[cur].vc;
    bump();
    for (int i = 1; i <= nthr; ++i) if (th[i].blocked == a) th[i].blocked = nullptr;
    point();
    return 0;
}
template <typename F> static F real(const char* n) { auto p = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); if (!p) abort(); return p; }
} // namespace rt
using namespace rt;

extern "C" {
// locks and yielding
int pthread_mutex_lock(pthread_mutex_t* m) { if (active) return vlock(m, false); static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (active) return vlock(m, true); static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (active) return vunlock(m); static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
int sched_yield() { if (active) { if (in_threads && cur) { ++step; give_way(); } return 0; } static auto f = real<int (*)()>("sched_yield"); return f(); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (active) { if (in_threads && cur) { ++step; give_way(); } return 0; } static auto f = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); return f(a, b); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { if (active) { if (in_threads && cur) { ++step; give_way(); } return 0; } static auto f = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(c, fl, a, b); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { (void)v; plain(p, 8, true); }
void __tsan_vptr_read(void** p) { plain(p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { plain(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { plain(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { plain(s, n, false); plain(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { plain(s, n, false); plain(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { plain(d, n, true); return memset(d, c, n); }
#define RW(N) \
    void __tsan_read##N(void* p) { plain(p, N, false); } \
    void __tsan_write##N(void* p) { plain(p, N, true); } \
    void __tsan_volatile_read##N(void* p) { plain(p, N, false); } \
    void __tsan_volatile_write##N(void* p) { plain(p, N, true); } \
    void __tsan_unaligned_read##N(void* p) { plain(p, N, false); } \
    void __tsan_unaligned_write##N(void* p) { plain(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void* p) { plain(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void* p) { plain(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { return load<T>(a, mo); } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { store<T>(a, v, mo); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { return rmw<T>(a, mo, "exchange", [&](T) { return v; }); } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { return rmw<T>(a, mo, "add", [&](T o) { return T(o + v); }); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { return rmw<T>(a, mo, "subtract", [&](T o) { return T(o - v); }); } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { return rmw<T>(a, mo, "and", [&](T o) { return T(o & v); }); } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { return rmw<T>(a, mo, "or", [&](T o) { return T(o | v); }); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { return rmw<T>(a, mo, "xor", [&](T o) { return T(o ^ v); }); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { return rmw<T>(a, mo, "nand", [&](T o) { return T(~(o & v)); }); } \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T d, int mo, int fmo) { return cas<T>(a, e, d, mo, fmo, false); } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T d, int mo, int fmo) { return cas<T>(a, e, d, mo, fmo, true); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T d, int mo, int fmo) { cas<T>(a, &e, d, mo, fmo, false); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}

void* operator new(size_t n) { return rt::alloc(n, 0, 0); }
void* operator new[](size_t n) { return rt::alloc(n, 0, 1); }
void* operator new(size_t n, std::align_val_t a) { return rt::alloc(n, size_t(a), 0); }
void* operator new[](size_t n, std::align_val_t a) { return rt::alloc(n, size_t(a), 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt::alloc(n, 0, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return rt::alloc(n, 0, 1); }
void operator delete(void* p) noexcept { rt::dealloc(p, 0, 0, false, 0); }
void operator delete[](void* p) noexcept { rt::dealloc(p, 0, 1, false, 0); }
void operator delete(void* p, size_t n) noexcept { rt::dealloc(p, 0, 0, true, n); }
void operator delete[](void* p, size_t n) noexcept { rt::dealloc(p, 0, 1, true, n); }
void operator delete(void* p, std::align_val_t a) noexcept { rt::dealloc(p, size_t(a), 0, false, 0); }
void operator delete[](void* p, std::align_val_t a) noexcept { rt::dealloc(p, size_t(a), 1, false, 0); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { rt::dealloc(p, size_t(a), 0, true, n); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { rt::dealloc(p, size_t(a), 1, true, n); }
