#include "policy_xmem.hpp"
#include "hist.hpp"
#include "wide.hpp"

void run_local(const uint8_t* ops, size_t n, RunCtx& ctx, Options opt) { run_program<XmemLocal>(ops, n, ctx, opt); }
namespace { struct Leave { template <typename T> void operator()(T*) const {} }; }
void wide_local(uint64_t seed) {
    wide::check<char>(XmemLocal::name, seed, [](char* b) { return XmemLocal::sptr<char[]>(b, Leave{}); });
    wide::check<const short>(XmemLocal::name, seed / 3, [](const short* b) { return XmemLocal::sptr<const short[]>(b, Leave{}); });
}
