#include "policy_xmem.hpp"
#include "uniq.hpp"
#include "wide.hpp"
void uniq_xmem(const uint8_t* ops, size_t n, uq::Ctx& ctx, uq::Options opt) { uq::run_program<XmemAtomic>(ops, n, ctx, opt); }
void uniq_local(const uint8_t* ops, size_t n, uq::Ctx& ctx, uq::Options opt) { uq::run_program<XmemLocal>(ops, n, ctx, opt); }
namespace { struct Leave { template <typename T> void operator()(T*) const {} }; }
void wide_uniq(uint64_t seed) {
    wide::check<char>("xmem::unique_ptr", seed, [](char* b) { return xmem::unique_ptr<char[], Leave>(b); });
    wide::check<const short>("xmem::unique_ptr", seed / 3, [](const short* b) { return xmem::unique_ptr<const short[], Leave>(b); });
}
