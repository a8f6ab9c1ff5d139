// A small property-based testing engine.
//
// A case is a sequence of fixed size operations (bytes). Every byte string decodes to a valid case, so
// shrinking is removing operations and making bytes smaller. Case number i of a run is a pure function of
// (property, seed, i). Cases run in forked shards, so that crashes, sanitizer reports and hangs are
// failures of the case which was running; failures are shrunk in forked children.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <new>

namespace eng {

// malloc based allocator: containers of the harness stay out of the operator new the code under test uses
template <typename T>
struct MA {
    using value_type = T;
    MA() noexcept = default;
    template <typename U> MA(const MA<U>&) noexcept {}
    T* allocate(size_t n) { void* p = std::malloc(n * sizeof(T) + 1); if (!p) std::abort(); return static_cast<T*>(p); }
    void deallocate(T* p, size_t) noexcept { std::free(p); }
    template <typename U> bool operator==(const MA<U>&) const noexcept { return true; }
    template <typename U> bool operator!=(const MA<U>&) const noexcept { return false; }
};
template <typename T> using hvec = std::vector<T, MA<T>>;
using bytes = hvec<uint8_t>;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 32) * n >> 32) : 0; }
    uint32_t range(uint32_t a, uint32_t b) { return a + below(b - a + 1); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    uint8_t byte() { return uint8_t(next() >> 40); }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto c = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

// ---- what harness code calls while a case runs ----
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char* name);        // classify the case (counted once per case)
void nontrivial();                   // the case is non-trivial by the stated rule
void count(const char* name, uint64_t n = 1); // plain counter
bool verbose();                      // explaining a case: print what happens

// ---- what a harness defines ----
extern uint64_t gen_seed;             // of the run a case is generated for
struct Harness {
    size_t op_size;                                                        // bytes of an operation
    size_t header;                                                         // bytes before the first operation, never removed
    void (*gen)(Rng& rng, const std::string& prop, uint64_t index, bytes& out);
    void (*run)(const std::string& prop, const uint8_t* data, size_t n);   // fail() on violation
    std::string (*describe)(const std::string& prop, const uint8_t* data, size_t n);
    unsigned cpu_limit_s;                                                  // CPU seconds after which a case hangs
};
extern const Harness harness;

} // namespace eng
