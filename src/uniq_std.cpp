#include "policy_std.hpp"
#include "uniq.hpp"
void uniq_std(const uint8_t* ops, size_t n, uq::Ctx& ctx, uq::Options opt) { uq::run_program<StdP>(ops, n, ctx, opt); }
