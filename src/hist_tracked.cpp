#include "policy_tracked.hpp"
#include "hist.hpp"
void throw_boom() { throw Boom{}; }
void run_tracked(const uint8_t* ops, size_t n, RunCtx& ctx, Options opt) { run_program<XmemTracked>(ops, n, ctx, opt); }
