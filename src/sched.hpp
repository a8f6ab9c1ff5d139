// Programs of several threads, run by the virtual thread runtime.
#pragma once
#include "engine.hpp"
#include "sched_rt.hpp"

namespace sc {
constexpr size_t OPSZ = 6;
constexpr size_t PHEAD = 8;                       // bytes which describe the world
constexpr size_t HEAD = rt::HEADER + PHEAD;
enum Op : uint8_t { COPY, MOVE, RESET, SWAP, WEAK, WCOPY, WMOVE, WRESET, LOCK, SELF, WSELF, ALIAS, BASE, DOWN, USE, WRITE, NEW, LOAD, STORE, XCHG, CAS, COUNT, GLOCK, GCOPY, POOL, XALIAS, WBASE, WVIRT, NOPS };
inline int threads_of(const uint8_t* w) { return 2 + w[0] % 3 + (w[1] >= 192 ? 2 : 0); }   // w: the bytes which describe the world
const char* op_name(int c);
// one operation on a storage, for the linearizability check
struct SEv { uint8_t kind, tid, st; bool ok; int parent; uint32_t inv, resp; uint64_t arg_p, arg_k, exp_p, res_p, res_k; };
// one operation on a counter
struct CEv { uint8_t kind, tid; uint32_t inv, resp, res; };
enum { E_LOAD, E_STORE, E_XCHG, E_CAS };
enum { C_INC, C_DEC, C_INCNZ, C_COUNT };
struct Result {
    eng::hvec<SEv> sev;
    uint64_t init_p[2], init_k[2], fin_p[2], fin_k[2];
    eng::hvec<CEv> cev;
    uint32_t c_init, c_final;
    uint32_t crowd;                  // pointers or operations before the threads began
    uint32_t locks_ok, locks_null, destroyed, storage_ops, nested, upgrades_from_object, shared_objects;
};
void run_xmem(const std::string& prop, const uint8_t* d, size_t n, Result& r);
void run_tracked(const std::string& prop, const uint8_t* d, size_t n, Result& r);
void run_std(const std::string& prop, const uint8_t* d, size_t n, Result& r);
void run_counter(const uint8_t* d, size_t n, Result& r);
} // namespace sc
