#include "policy_ref.hpp"
#include "hist.hpp"

void run_ref(const uint8_t* ops, size_t n, RunCtx& ctx, Options opt) { run_program<RefP>(ops, n, ctx, opt); }
