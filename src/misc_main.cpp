// Operations have 8 bytes in every topic; the property selects the topic.
#include "misc.hpp"
#include <cstdarg>

void appendf(std::string& s, const char* fmt, ...) {
    char b[400];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof(b), fmt, a);
    va_end(a);
    s += b;
}
static const Topic& of(const std::string& p) {
    if (p == "C16") return topic_cmp;
    if (p == "C18" || p == "C17") return topic_make;
    if (p == "C15") return topic_count;
    if (p == "C09") return topic_alloc;
    fprintf(stderr, "no topic for %s\n", p.c_str());
    exit(2);
}
static void gen(eng::Rng& r, const std::string& p, uint64_t i, eng::bytes& o) { of(p).gen(r, p, i, o); }
static void run(const std::string& p, const uint8_t* d, size_t n) { of(p).run(p, d, n); }
static std::string describe(const std::string& p, const uint8_t* d, size_t n) { return of(p).describe(p, d, n); }
const eng::Harness eng::harness{8, 0, gen, run, describe, 30};
