// Small single topic harnesses: comparison and printing (C16), make functions (C18, C17), counters (C15), memory (C09).
#pragma once
#include "engine.hpp"
#include <string>

struct Topic {
    size_t op_size;
    void (*gen)(eng::Rng& r, const std::string& prop, uint64_t index, eng::bytes& out);
    void (*run)(const std::string& prop, const uint8_t* d, size_t n);
    std::string (*describe)(const std::string& prop, const uint8_t* d, size_t n);
};
extern const Topic topic_cmp, topic_make, topic_count, topic_alloc;
void appendf(std::string& s, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
