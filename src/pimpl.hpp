// A type which is incomplete where pointers to it are used (src/uniq_pimpl.cpp), and its makers (src/uniq_hidden.cpp)
#pragma once
#include <cstdint>
#include <cstddef>
#include <xmem/unique_ptr.hpp>
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/basic_weak_ptr.hpp>
#include <xmem/basic_atomic_shared_ptr_storage.hpp>

struct Hidden;
struct Outer {
    xmem::unique_ptr<Hidden> p;
    xmem::unique_ptr<Hidden, void (*)(Hidden*)> f;
    explicit Outer(int v);
    Outer(Outer&& o) noexcept;
    Outer& operator=(Outer&& o) noexcept;
    ~Outer();
    void clear();
    int value() const;                         // through what p points to
    xmem::shared_ptr<Hidden> share();          // p gives its object away
    xmem::local_shared_ptr<Hidden> share_local();
};
int hidden_value(const Hidden& h);
extern int hidden_live, hidden_dtors_seeing_themselves, hidden_fn_calls;
