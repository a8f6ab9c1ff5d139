#include "policy_std.hpp"
#include "hist.hpp"

void run_std(const uint8_t* ops, size_t n, RunCtx& ctx, Options opt) { run_program<StdP>(ops, n, ctx, opt); }
