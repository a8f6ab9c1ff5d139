// what the interpreter needs from a pointer library: xmem with a given control block factory
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "track.hpp"
#include <xmem/shared_ptr.hpp>
#include <xmem/local_shared_ptr.hpp>
#include <xmem/basic_weak_ptr.hpp>
#include <xmem/basic_shared_from.hpp>
#include <xmem/unique_ptr.hpp>

template <typename CBF>
struct XmemBase {
    static constexpr bool is_ref = false;
    static constexpr bool is_std = false;
    using factory = CBF;
    template <typename T> using sptr = xmem::basic_shared_ptr<CBF, T>;
    template <typename T> using wptr = xmem::basic_weak_ptr<CBF, T>;
    template <typename T> using storage = xmem::basic_atomic_shared_ptr_storage<CBF, T>;
    template <typename T, typename D = xmem::default_delete<T>> using uptr = xmem::unique_ptr<T, D>;
    template <typename T> using ddel = xmem::default_delete<T>;
    using esf = xmem::basic_enable_shared_from<CBF>;
    template <typename T> using esft = xmem::basic_enable_shared_from_this<CBF, T>;

    template <typename T, typename A, typename... Args>
    static sptr<T> make_alloc(A a, Args&&... args) { return sptr<T>(CBF::template make_resource_cb<T>(a, std::forward<Args>(args)...)); }
    template <typename T, typename... Args>
    static sptr<T> make(Args&&... args) { return make_alloc<T>(xmem::allocator<char>{}, std::forward<Args>(args)...); }
    template <typename T> static sptr<T> make_ow() { return sptr<T>(CBF::template make_resource_cb_for_overwrite<T>(xmem::allocator<char>{})); }
    // adopt a unique pointer with a custom allocator, if there is a way to do it
    template <typename F, typename U, typename A, typename = void> struct has_adopt : std::false_type {};
    template <typename F, typename U, typename A> struct has_adopt<F, U, A, std::void_t<decltype(F::make_uptr_cb(std::declval<U&>(), std::declval<A>()))>> : std::true_type {};
    template <typename T, typename U, typename A>
    static sptr<T> adopt_alloc(U&& u, A a) {
        if constexpr (has_adopt<CBF, U, A>::value) return sptr<T>(CBF::make_uptr_cb(u, a));
        else return sptr<T>(std::move(u));
    }
    static constexpr bool tracked = false;
    static constexpr bool cb_can_throw_policy = false;
    static bool arm_cb(bool) { return true; }
    template <typename W> static void check_tracking(W&) {}
    static uint64_t live_records() { return track::st.tags_live; }
    template <typename F> static auto esf_call(F f) { return f(); }
    static bool same_key(const void* a, const void* b) { return a == b; }

    template <typename T, typename U> static sptr<T> scast(const sptr<U>& s) { return xmem::static_pointer_cast<T>(s); }
    template <typename T, typename U> static sptr<T> ccast(const sptr<U>& s) { return xmem::const_pointer_cast<T>(s); }
    template <typename T, typename U> static sptr<T> rcast(const sptr<U>& s) { return xmem::reinterpret_pointer_cast<T>(s); }
    template <typename T, typename U> static sptr<T> dcast(const sptr<U>& s) { return xmem::dynamic_pointer_cast<T>(s); }
    template <typename U, typename T> static sptr<T> aliased(const sptr<U>& s, T* p) { return xmem::make_aliased(s, p); }
    template <typename A, typename B> static bool same(const A& a, const B& b) { return xmem::same_owner(a, b); }
    template <typename A> static bool none(const A& a) { return xmem::no_owner(a); }
    template <typename A> static const void* key(const A& a) { return a.owner(); }
    template <typename T> static bool wbool(const wptr<T>& w) { return bool(w); }
};

struct XmemAtomic : XmemBase<xmem::atomic_control_block_factory> {
    static constexpr const char* name = "xmem::shared_ptr";
    template <typename T, typename... Args>
    static sptr<T> make(Args&&... args) { return xmem::make_shared<T>(std::forward<Args>(args)...); }
    template <typename T> static sptr<T> make_ow() { return xmem::make_shared_for_overwrite<T>(); }
};
struct XmemLocal : XmemBase<xmem::local_control_block_factory> {
    static constexpr const char* name = "xmem::local_shared_ptr";
    template <typename T, typename... Args>
    static sptr<T> make(Args&&... args) { return xmem::make_local_shared<T>(std::forward<Args>(args)...); }
    template <typename T> static sptr<T> make_ow() { return xmem::make_local_shared_for_overwrite<T>(); }
};
