#include "pimpl.hpp"
#include "engine.hpp"

int hidden_live, hidden_dtors_seeing_themselves, hidden_fn_calls;
struct Hidden {
    int v;
    Outer* out;
    Hidden(int v, Outer* o) : v(v), out(o) { ++hidden_live; }
    ~Hidden() {
        if (v < 0) eng::fail("a hidden object is destroyed twice");
        if (out && out->p.get() == this && out->p && out->p->v == v) ++hidden_dtors_seeing_themselves;
        v = -1; --hidden_live;
    }
};
static void hidden_delete(Hidden* h) { ++hidden_fn_calls; delete h; }
int hidden_value(const Hidden& h) { return h.v; }
Outer::Outer(int v) : p(new Hidden(v, this)), f(new Hidden(v + 1000, nullptr), hidden_delete) {}
static void follow(Outer& o) { if (o.p) o.p->out = &o; }
Outer::Outer(Outer&& o) noexcept : p(std::move(o.p)), f(std::move(o.f)) { follow(*this); }
Outer& Outer::operator=(Outer&& o) noexcept {
    if (p) p->out = nullptr;
    p = std::move(o.p); f = std::move(o.f);
    follow(*this);
    return *this;
}
Outer::~Outer() {}
void Outer::clear() { if (p) p->out = nullptr; p.reset(); f = nullptr; }
int Outer::value() const { return p ? p->v : 0; }
xmem::shared_ptr<Hidden> Outer::share() { if (p) p->out = nullptr; return xmem::shared_ptr<Hidden>(std::move(p)); }
xmem::local_shared_ptr<Hidden> Outer::share_local() { if (p) p->out = nullptr; return xmem::local_shared_ptr<Hidden>(std::move(p)); }
