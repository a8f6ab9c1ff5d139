// std pointers with the xstd helpers
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <memory>
#include "track.hpp"
#include <xmem/std_helpers.hpp>

struct StdP {
    static constexpr const char* name = "std::shared_ptr with xstd";
    static constexpr bool is_ref = false, is_std = true, tracked = false, cb_can_throw_policy = false;
    template <typename T> using sptr = std::shared_ptr<T>;
    template <typename T> using wptr = std::weak_ptr<T>;
    template <typename T> using storage = xstd::atomic_shared_ptr_storage<T>;
    template <typename T, typename D = std::default_delete<T>> using uptr = std::unique_ptr<T, D>;
    template <typename T> using ddel = std::default_delete<T>;
    using esf = xstd::enable_shared_from;
    template <typename T> using esft = std::enable_shared_from_this<T>;
    template <typename T, typename A, typename... Args> static sptr<T> make_alloc(A a, Args&&... args) { return std::allocate_shared<T>(a, std::forward<Args>(args)...); }
    template <typename T> static sptr<T> make_ow() {
#if __cpp_lib_smart_ptr_for_overwrite
        return std::make_shared_for_overwrite<T>();
#else
        return std::make_shared<T>();
#endif
    }
    template <typename T, typename... Args> static sptr<T> make(Args&&... args) { return std::make_shared<T>(std::forward<Args>(args)...); }
    template <typename T, typename U, typename A> static sptr<T> adopt_alloc(U&& u, A) { return sptr<T>(std::move(u)); }
    template <typename T, typename U> static sptr<T> scast(const sptr<U>& s) { return std::static_pointer_cast<T>(s); }
    template <typename T, typename U> static sptr<T> ccast(const sptr<U>& s) { return std::const_pointer_cast<T>(s); }
    template <typename T, typename U> static sptr<T> rcast(const sptr<U>& s) { return std::reinterpret_pointer_cast<T>(s); }
    template <typename T, typename U> static sptr<T> dcast(const sptr<U>& s) { return std::dynamic_pointer_cast<T>(s); }
    template <typename U, typename T> static sptr<T> aliased(const sptr<U>& s, T* p) { return xstd::make_aliased(s, p); }
    template <typename A, typename B> static bool same(const A& a, const B& b) { return xstd::same_owner(a, b); }
    template <typename A> static bool none(const A& a) { return xstd::no_owner(a); }
    // owners are told apart by the standard's own owner_before
    template <typename T> static std::weak_ptr<const void> key(const std::shared_ptr<T>& a) { return std::shared_ptr<const void>(a, nullptr); }
    template <typename T> static std::weak_ptr<const void> key(const std::weak_ptr<T>& a) { return a; }
    static bool same_key(const std::weak_ptr<const void>& a, const std::weak_ptr<const void>& b) { return !a.owner_before(b) && !b.owner_before(a); }
    template <typename T> static bool wbool(const wptr<T>& w) { return !xstd::no_owner(w); }
    static bool arm_cb(bool) { return true; }
    template <typename W> static void check_tracking(W&) {}
    static uint64_t live_records() { return track::st.tags_live; }
    template <typename F> static auto esf_call(F f) -> decltype(f()) {
        try { return f(); }
        catch (std::bad_weak_ptr&) { return {}; }
    }
};
