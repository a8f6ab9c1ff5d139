// indices of arrays larger than 4 GB: the address of the element is what counts, nothing is read
#pragma once
#include "engine.hpp"
#include <sys/mman.h>
#include <cstdint>

namespace wide {
constexpr size_t SIZE = size_t(6) << 30;
inline char* region() {
    static char* r = [] {
        void* p = mmap(nullptr, SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return p == MAP_FAILED ? nullptr : static_cast<char*>(p);
    }();
    return r;
}
// an index of [0, n), often beyond 32 bits
inline size_t index(uint64_t seed, size_t n) {
    uint64_t z = (seed + 1) * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 27;
    static const size_t near[] = {0, 0x7f, 0xff, 0x7fff, 0xffff, 0x7fffffff, 0xffffffff, 0x100000000};
    size_t i = z & 1 ? size_t(z >> 1) % n : near[(z >> 1) % 8] + ((z >> 4) & 3);
    return i < n ? i : n - 1;
}
// make(T*) gives an array pointer to the region
template <typename T, typename F> void check(const char* name, uint64_t seed, F make) {
    if (!region()) return;
    T* base = reinterpret_cast<T*>(region());
    auto p = make(base);
    size_t i = index(seed, SIZE / sizeof(T));
    if (&p[i] != base + i) eng::fail("%s: element %zu of an array of elements of %zu bytes is %td bytes away from the first one", name, i, sizeof(T), reinterpret_cast<const char*>(&p[i]) - reinterpret_cast<const char*>(base));
}
}
