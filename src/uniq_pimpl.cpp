// Pointers to an incomplete type: moved, swapped, observed, copied, locked and stored where nothing is known about it.
#include "pimpl.hpp"
#include "engine.hpp"
#include <utility>

void pimpl_program(const uint8_t* op);
namespace {
template <typename F, typename S, typename W> void shared_part(S s, int want, const uint8_t* op) {
    if (!s || hidden_value(*s) != want || s.use_count() != 1) eng::fail("a shared pointer to an incomplete type: value or count");
    S t = s, u(std::move(t)), n;
    W w = s;
    if (t || u.use_count() != 2 || u != s || w.expired()) eng::fail("a shared pointer to an incomplete type: copy or move");
    n = u; u.reset(); n.swap(u);
    xmem::basic_atomic_shared_ptr_storage<F, Hidden> st(u);
    u.reset();
    if (st.load().use_count() != 3) eng::fail("a storage of an incomplete type: count");
    u = st.exchange(nullptr);
    if (op[6] & 1) { auto e = S(); st.compare_exchange(e, s); }
    S l = w.lock();
    if (l.get() != s.get() || !same_owner(l, s)) eng::fail("a weak pointer to an incomplete type: lock()");
    if (hidden_live < 1) eng::fail("a shared object of incomplete type is gone");
    l.reset(); u.reset(); s.reset(); st.store(nullptr);
    if (!w.expired() || w.lock()) eng::fail("an object of incomplete type is still owned");
}
}
void pimpl_program(const uint8_t* op) {
    const int live = hidden_live, base = op[3] % 50 + 1;
    hidden_dtors_seeing_themselves = hidden_fn_calls = 0;
    int own = 0;   // objects which are destroyed while an Outer holds them
    {
        Outer a(base), b(base + 50);
        if (hidden_live != live + 4) eng::fail("hidden objects");
        int va = base, vb = base + 50;
        for (int i = 4; i < 8; ++i) switch (op[i] % 6) {
        case 0: { Outer c(std::move(a)); if (a.p || a.f || c.value() != va) eng::fail("a pointer to an incomplete type is not null after a move"); a = std::move(c); break; }
        case 1: if (a.p && b.p) { auto& pa = a.p; auto& pb = b.p; const Hidden* x = pa.get(); pa.swap(pb); pa.swap(pb); if (pa.get() != x) eng::fail("swap of pointers to an incomplete type"); } break;
        case 2: a.f.swap(b.f); break;
        case 3: a = std::move(b); va = vb; vb = 0; if (b.p || b.f) eng::fail("a pointer to an incomplete type is not null after a move"); break;
        case 4: b.clear(); vb = 0; if (b.p || b.f) eng::fail("a pointer to an incomplete type is not null after reset"); break;
        default: if (a.value() != va || b.value() != vb || bool(a.p) != (va != 0) || bool(b.p) != (vb != 0)) eng::fail("pointers to an incomplete type hold other objects"); break;
        }
        if (a.value() != va || b.value() != vb) eng::fail("pointers to an incomplete type hold other objects");
        if (op[2] & 1 && va) {
            if (op[2] & 2) shared_part<xmem::atomic_control_block_factory, xmem::shared_ptr<Hidden>, xmem::weak_ptr<Hidden>>(a.share(), va, op);
            else shared_part<xmem::local_control_block_factory, xmem::local_shared_ptr<Hidden>, xmem::local_weak_ptr<Hidden>>(a.share_local(), va, op);
            va = 0;
            if (a.p) eng::fail("a pointer which gave its object away is not null");
        }
        own = (va != 0) + (vb != 0);
    }
    if (hidden_live != live) eng::fail("%d hidden objects are left", hidden_live - live);
    if (hidden_dtors_seeing_themselves != own) eng::fail("the pointer to an object of incomplete type did not hold it while it was destroyed (%d of %d)", hidden_dtors_seeing_themselves, own);
    if (hidden_fn_calls != 2) eng::fail("a function which deletes was called %d times for 2 objects", hidden_fn_calls);
}
