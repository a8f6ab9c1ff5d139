// Global operator new/delete which account every allocation of the code under test:
// size, alignment, form (scalar, array, aligned) must match on release; allocation can be made to fail.
#pragma once
#include <cstdint>
#include <cstddef>

namespace track {

struct State {
    bool on = false;            // accounting is on
    int tag = 0;                // given to new blocks
    int fail_in = 0;            // >0: the fail_in-th allocation from now throws
    bool forbid = false;        // every allocation throws
    size_t limit = 0;           // >0: larger allocations throw
    size_t refused = 0;         // size of the last one refused because of it
    bool fired = false;         // a failure was injected
    uint64_t allocs = 0;        // allocations made (or refused) while on
    uint64_t live = 0;          // live accounted blocks
    uint64_t live_bytes = 0;
    uint64_t tags_live = 0;     // non-zero tags which have live blocks
};
extern State st;

void reset();                   // forget everything (start of a case)
uint64_t live_with_tag(int tag);
bool is_block(const void* p);   // p is the start of a live accounted block
size_t block_size(const void* p);
// a description of some live block
void describe_live(char* buf, size_t n);

struct Scope {                  // sets state for a scope
    State old;
    Scope(bool on, int tag) : old(st) { st.on = on; st.tag = tag; }
    ~Scope() { st.on = old.on; st.tag = old.tag; }
};

} // namespace track
