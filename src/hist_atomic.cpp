#include "policy_xmem.hpp"
#include "hist.hpp"
#include "wide.hpp"

void run_atomic(const uint8_t* ops, size_t n, RunCtx& ctx, Options opt) { run_program<XmemAtomic>(ops, n, ctx, opt); }
namespace { struct Leave { template <typename T> void operator()(T*) const {} }; }
void wide_atomic(uint64_t seed) {
    wide::check<char>(XmemAtomic::name, seed, [](char* b) { return XmemAtomic::sptr<char[]>(b, Leave{}); });
    wide::check<const short>(XmemAtomic::name, seed / 3, [](const short* b) { return XmemAtomic::sptr<const short[]>(b, Leave{}); });
}
