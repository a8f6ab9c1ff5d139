// the reference model behind the interface of a policy
#pragma once
#include "ref.hpp"
#include <cstdint>

struct RefP {
    static constexpr const char* name = "reference model";
    static constexpr bool is_ref = true, is_std = false, tracked = false;
    static constexpr bool cb_can_throw_policy = true; // decodes the same plans; which of them came true is told by the run under test
    template <typename T> using sptr = ref::sptr<T>;
    template <typename T> using wptr = ref::wptr<T>;
    template <typename T> using storage = ref::storage<T>;
    template <typename T, typename D = ref::deflt<T>> using uptr = ref::uptr<T, D>;
    template <typename T> using ddel = ref::deflt<T>;
    using esf = ref::esf;
    template <typename T> struct esft : ref::esf {
        sptr<T> shared_from_this() { return this->shared_from(static_cast<T*>(this)); }
        sptr<const T> shared_from_this() const { return this->shared_from(static_cast<const T*>(this)); }
        wptr<T> weak_from_this() { return this->weak_from(static_cast<T*>(this)); }
        wptr<const T> weak_from_this() const { return this->weak_from(static_cast<const T*>(this)); }
    };
    template <typename T> static sptr<T> make_ow() { return sptr<T>(new T); }
    template <typename T, typename... Args> static sptr<T> make(Args&&... args) { return sptr<T>(new T(std::forward<Args>(args)...)); }
    template <typename T, typename A, typename... Args> static sptr<T> make_alloc(A, Args&&... args) { return sptr<T>(new T(std::forward<Args>(args)...)); }
    template <typename T, typename U, typename A> static sptr<T> adopt_alloc(U&& u, A) { return sptr<T>(std::move(u)); }
    template <typename T, typename U> static sptr<T> make_cast(const sptr<U>& s, T* p) { if (!s.o) return {}; return sptr<T>(s, p); }
    template <typename T, typename U> static sptr<T> scast(const sptr<U>& s) { return make_cast<T>(s, static_cast<T*>(s.get())); }
    template <typename T, typename U> static sptr<T> ccast(const sptr<U>& s) { return make_cast<T>(s, const_cast<T*>(s.get())); }
    template <typename T, typename U> static sptr<T> rcast(const sptr<U>& s) { return make_cast<T>(s, reinterpret_cast<T*>(s.get())); }
    template <typename T, typename U> static sptr<T> dcast(const sptr<U>& s) { T* p = dynamic_cast<T*>(s.get()); if (!p) return {}; return make_cast<T>(s, p); }
    template <typename U, typename T> static sptr<T> aliased(const sptr<U>& s, T* p) { return make_cast<T>(s, p); }
    template <typename A, typename B> static bool same(const A& a, const B& b) { return a.o == b.o; }
    template <typename A> static bool none(const A& a) { return !a.o; }
    template <typename A> static const void* key(const A& a) { return a.o; }
    static bool same_key(const void* a, const void* b) { return a == b; }
    template <typename T> static bool wbool(const wptr<T>& w) { return bool(w); }
    static bool arm_cb(bool) { return true; }
    template <typename W> static void check_tracking(W&) {}
    static uint64_t live_records() { return uint64_t(ref::Owner::live_records); }
    template <typename F> static auto esf_call(F f) { return f(); }
};
namespace ref {
template <typename A, typename B> bool operator==(const sptr<A>& a, const sptr<B>& b) { return a.p == b.p; }
template <typename A, typename B> bool operator!=(const sptr<A>& a, const sptr<B>& b) { return a.p != b.p; }
template <typename A, typename B> bool operator<(const sptr<A>& a, const sptr<B>& b) { return a.p < b.p; }
template <typename A, typename B> bool operator>(const sptr<A>& a, const sptr<B>& b) { return a.p > b.p; }
template <typename A, typename B> bool operator<=(const sptr<A>& a, const sptr<B>& b) { return a.p <= b.p; }
template <typename A, typename B> bool operator>=(const sptr<A>& a, const sptr<B>& b) { return a.p >= b.p; }
}
