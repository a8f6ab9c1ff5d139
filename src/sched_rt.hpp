// A runtime for programs compiled with -fsanitize=thread: it stands in for libtsan.
//
// Virtual threads are coroutines on one OS thread. Every atomic operation is a scheduling point; the schedule is
// a pure function of the bytes of the case. Plain and atomic accesses to the arena are checked for data races
// (happens-before with the memory orders the code really uses), for use of memory which is not allocated, and
// loads may return older values where the C++ memory model allows it; weak compare-exchange may fail spuriously.
#pragma once
#include <cstdint>
#include <cstddef>

namespace rt {
constexpr int MAXT = 7;               // the main thread and six more
constexpr size_t HEADER = 24;         // bytes of a case which describe the schedule

void begin(const uint8_t* header);    // memory comes from the arena from now on; thread 0 runs
void run(int n, void (*body)(int tid, void* arg), void* arg);   // threads 1..n, until all are done
void end();                           // back to normal

int tid();
uint32_t now();                       // scheduling points passed
uint32_t tick();                      // an event of its own, between scheduling points
uint64_t live_blocks();
void describe_live(char* buf, size_t n);
size_t mark();                        // blocks allocated so far
uint64_t live_since(size_t mark);
void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // part of the explanation of a case
void quiet(bool on);                  // thread 0 alone does so much that its accesses are not noted
void allow_steps(uint32_t n);

struct Stats { uint32_t steps, switches, preempted, contended, stale, weak_failed, forced; };
extern Stats stats;
} // namespace rt
