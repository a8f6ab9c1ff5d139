// The reference model: smart pointers written for obviousness, not speed, and independently of xmem.
// Every owner is a record with the number of shared and weak pointers which have it and a way to kill the object.
#pragma once
#include <cstddef>
#include <type_traits>
#include <utility>
#include <new>
#include <cstdlib>

namespace ref {

struct Owner {
    long strong = 1, weak = 0;
    bool dying = false;
    virtual void kill() = 0;     // destroy the object the way it was asked for
    virtual ~Owner() {}
    static void* operator new(size_t n) { void* p = std::malloc(n); if (!p) std::abort(); return p; }
    static void operator delete(void* p) { std::free(p); }
    bool counted;
    static long live_records;
    Owner();
};
inline long Owner::live_records = 0;
inline bool counting = true;    // records of owners made now are counted
inline Owner::Owner() : counted(counting) { if (counted) ++live_records; }

inline void maybe_free(Owner* o) {
    if (o->strong == 0 && o->weak == 0 && !o->dying) { if (o->counted) --Owner::live_records; delete o; }
}
inline void add_strong(Owner* o) { if (o) ++o->strong; }
inline void drop_strong(Owner* o) {
    if (!o) return;
    if (--o->strong == 0) {
        o->dying = true;
        o->kill();
        o->dying = false;
        maybe_free(o);
    }
}
inline void add_weak(Owner* o) { if (o) ++o->weak; }
inline void drop_weak(Owner* o) {
    if (!o) return;
    --o->weak;
    maybe_free(o);
}

template <typename T, typename D>
struct DelOwner final : Owner {
    T* p; D d;
    DelOwner(T* p, D&& dd) : p(p), d(std::forward<D>(dd)) {}
    void kill() override { if (p) d(p); }
};
template <typename T, typename D>
struct RefDelOwner final : Owner {
    T* p; D* d;
    RefDelOwner(T* p, D& d) : p(p), d(&d) {}
    void kill() override { if (p) (*d)(p); }
};

// ---- unique pointer ----
template <typename T> struct deflt {
    deflt() = default;
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>> deflt(const deflt<U>&) {}
    void operator()(T* p) const { delete p; }
};
template <typename T> struct deflt<T[]> { void operator()(T* p) const { delete[] p; } };

template <typename T, typename D = deflt<T>>
struct uptr {
    using E = std::remove_extent_t<T>;
    E* p = nullptr;
    D d;
    uptr() : d() {}
    uptr(std::nullptr_t) : d() {}
    struct Never {};
    explicit uptr(std::conditional_t<std::is_pointer_v<D>, D, Never> dd) : d(dd) {}
    explicit uptr(E* q) : p(q), d() {}
    template <typename DD> uptr(E* q, DD&& dd) : p(q), d(std::forward<DD>(dd)) {}
    uptr(uptr&& o) : p(o.release()), d(std::forward<D>(o.d)) {}
    template <typename U, typename D2> uptr(uptr<U, D2>&& o) : p(o.release()), d(std::forward<D2>(o.get_deleter())) {}
    uptr& operator=(uptr&& o) { E* q = o.release(); reset(q); d = std::forward<D>(o.d); return *this; }
    template <typename U, typename D2> uptr& operator=(uptr<U, D2>&& o) { E* q = o.release(); reset(q); d = std::forward<D2>(o.get_deleter()); return *this; }
    uptr& operator=(std::nullptr_t) { reset(); return *this; }
    ~uptr() { if (p) d(p); }   // still holds the object meanwhile
    E* release() { E* q = p; p = nullptr; return q; }
    void reset(E* q = nullptr) { E* old = p; p = q; if (old) d(old); }
    E* get() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    E* operator->() const { return p; }
    std::add_lvalue_reference_t<E> operator*() const { return *p; }
    std::add_lvalue_reference_t<E> operator[](size_t i) const { return p[i]; }
    D& get_deleter() { return d; }
    const D& get_deleter() const { return d; }
    void swap(uptr& o) { std::swap(p, o.p); std::swap(d, o.d); }
};
// holding the deleter by reference
template <typename T, typename D>
struct uptr<T, D&> {
    T* p; D* d;
    uptr(T* q, D& dd) : p(q), d(&dd) {}
    explicit uptr(D& dd) : p(nullptr), d(&dd) {}
    uptr(uptr&& o) : p(o.release()), d(o.d) {}
    template <typename U> uptr(uptr<U, D&>&& o) : p(o.release()), d(o.d) {}
    uptr& operator=(uptr&& o) { T* q = o.release(); reset(q); d = o.d; return *this; }
    template <typename U> uptr& operator=(uptr<U, D&>&& o) { T* q = o.release(); reset(q); d = o.d; return *this; }
    uptr& operator=(std::nullptr_t) { reset(); return *this; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    D& get_deleter() const { return *d; }
    ~uptr() { if (p) (*d)(p); }
    T* release() { T* q = p; p = nullptr; return q; }
    void reset(T* q = nullptr) { T* old = p; p = q; if (old) (*d)(old); }
    T* get() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    void swap(uptr& o) { std::swap(p, o.p); std::swap(d, o.d); }
};

struct esf;
template <typename T> struct wptr;

inline void esf_adopt(const esf* e, Owner* o, void* full);

// ---- shared pointer ----
template <typename T>
struct sptr {
    using element_type = std::remove_extent_t<T>;
    using E = element_type;
    Owner* o = nullptr;
    E* p = nullptr;

    sptr() {}
    sptr(std::nullptr_t) {}
    struct take {};
    sptr(take, Owner* o, E* p) : o(o), p(p) {}   // takes a counted ref

    sptr(const sptr& r) : o(r.o), p(r.p) { add_strong(o); }
    template <typename U> sptr(const sptr<U>& r) : o(r.o), p(r.p) { add_strong(o); }
    sptr(sptr&& r) : o(r.o), p(r.p) { r.o = nullptr; r.p = nullptr; }
    template <typename U> sptr(sptr<U>&& r) : o(r.o), p(r.p) { r.o = nullptr; r.p = nullptr; }
    template <typename U> sptr(const sptr<U>& r, E* a) : o(r.o), p(a) { add_strong(o); }

    template <typename U> static void adopt_esf(Owner* o, U* u) {
        if constexpr (std::is_base_of_v<esf, U>) { if (u) esf_adopt(u, o, const_cast<std::remove_cv_t<U>*>(u)); }
    }

    template <typename U> explicit sptr(U* u) {
        using D = std::conditional_t<std::is_array_v<T>, deflt<U[]>, deflt<U>>;
        o = new DelOwner<U, D>(u, D()); p = u;
        adopt_esf(o, u);
    }
    template <typename U, typename D> sptr(U* u, D d) { o = new DelOwner<U, D>(u, std::move(d)); p = u; adopt_esf(o, u); }
    template <typename U, typename D> sptr(uptr<U, D>&& u) {
        auto q = u.release();
        o = new DelOwner<std::remove_extent_t<U>, D>(q, std::move(u.d));
        p = q;
        adopt_esf(o, q);
    }
    template <typename U, typename D> sptr(uptr<U, D&>&& u) {
        auto q = u.release();
        o = new RefDelOwner<U, D>(q, *u.d);
        p = q;
        adopt_esf(o, q);
    }

    template <typename D> sptr(std::nullptr_t, D d) { o = new DelOwner<E, D>(nullptr, std::move(d)); }

    // assignment: the new value is there before the old one is let go
    void install(Owner* no, E* np) { Owner* old = o; o = no; p = np; drop_strong(old); }
    sptr& operator=(const sptr& r) { if (&r == this) return *this; Owner* ro = r.o; E* rp = r.p; add_strong(ro); install(ro, rp); return *this; }
    template <typename U> sptr& operator=(const sptr<U>& r) { Owner* ro = r.o; E* rp = r.p; add_strong(ro); install(ro, rp); return *this; }
    sptr& operator=(sptr&& r) {
        if (&r == this) return *this;
        Owner* ro = r.o; E* rp = r.p; r.o = nullptr; r.p = nullptr;
        install(ro, rp); return *this;
    }
    template <typename U> sptr& operator=(sptr<U>&& r) {
        Owner* ro = r.o; E* rp = r.p; r.o = nullptr; r.p = nullptr;
        install(ro, rp); return *this;
    }
    template <typename U, typename D> sptr& operator=(uptr<U, D>&& u) { sptr t(std::move(u)); Owner* to = t.o; E* tp = t.p; t.o = nullptr; install(to, tp); return *this; }
    ~sptr() { drop_strong(o); }

    void reset(std::nullptr_t = nullptr) { install(nullptr, nullptr); }
    template <typename U> void reset(U* u) { sptr t(u); Owner* to = t.o; E* tp = t.p; t.o = nullptr; install(to, tp); }
    template <typename U, typename D> void reset(U* u, D d) { sptr t(u, std::move(d)); Owner* to = t.o; E* tp = t.p; t.o = nullptr; install(to, tp); }
    void swap(sptr& r) { std::swap(o, r.o); std::swap(p, r.p); }

    E* get() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    E* operator->() const { return p; }
    template <typename TT = E> std::enable_if_t<!std::is_void_v<TT>, TT&> operator*() const { return *p; }
    template <typename TT = E> std::enable_if_t<!std::is_void_v<TT>, TT&> operator[](size_t i) const { return p[i]; }
    long use_count() const { return o ? o->strong : 0; }
    const void* owner() const { return o; }
    template <typename U> bool owner_before(const sptr<U>& r) const { return o < r.o; }
    template <typename U> bool owner_before(const wptr<U>& r) const { return o < r.o; }
};

template <typename T>
struct wptr {
    using element_type = std::remove_extent_t<T>;
    using E = element_type;
    Owner* o = nullptr;
    E* p = nullptr;
    wptr() {}
    wptr(const wptr& r) : o(r.o), p(r.p) { add_weak(o); }
    // a conversion may need the object: without one the pointer can never be seen again
    template <typename U> static E* conv(const wptr<U>& r) { return r.o && r.o->strong > 0 ? static_cast<E*>(r.p) : nullptr; }
    template <typename U> wptr(const wptr<U>& r) : o(r.o), p(conv(r)) { add_weak(o); }
    wptr(wptr&& r) : o(r.o), p(r.p) { r.o = nullptr; r.p = nullptr; }
    template <typename U> wptr(wptr<U>&& r) : o(r.o), p(conv(r)) { r.o = nullptr; r.p = nullptr; }
    template <typename U> wptr(const sptr<U>& s) : o(s.o), p(s.p) { add_weak(o); }
    template <typename U> wptr(const wptr<U>& r, E* a) : o(r.o), p(r.o ? a : nullptr) { add_weak(o); }
    template <typename U> wptr(const sptr<U>& r, E* a) : o(r.o), p(r.o ? a : nullptr) { add_weak(o); }
    wptr(Owner* oo, E* pp) : o(oo), p(pp) { add_weak(o); }
    void install(Owner* no, E* np) { Owner* old = o; o = no; p = np; drop_weak(old); }
    wptr& operator=(const wptr& r) { if (&r != this) { add_weak(r.o); install(r.o, r.p); } return *this; }
    template <typename U> wptr& operator=(const wptr<U>& r) { add_weak(r.o); E* q = conv(r); install(r.o, q); return *this; }
    wptr& operator=(wptr&& r) { if (&r != this) { auto ro = r.o; auto rp = r.p; r.o = nullptr; r.p = nullptr; install(ro, rp); } return *this; }
    template <typename U> wptr& operator=(wptr<U>&& r) { E* q = conv(r); auto ro = r.o; r.o = nullptr; r.p = nullptr; install(ro, q); return *this; }
    template <typename U> wptr& operator=(const sptr<U>& s) { add_weak(s.o); E* q = s.p; install(s.o, q); return *this; }
    ~wptr() { drop_weak(o); }
    void reset() { install(nullptr, nullptr); }
    void swap(wptr& r) { std::swap(o, r.o); std::swap(p, r.p); }
    long use_count() const { return o ? o->strong : 0; }
    bool expired() const { return use_count() == 0; }
    explicit operator bool() const { return o != nullptr; }
    const void* owner() const { return o; }
    template <typename U> bool owner_before(const sptr<U>& r) const { return o < r.o; }
    template <typename U> bool owner_before(const wptr<U>& r) const { return o < r.o; }
    sptr<T> lock() const {
        if (!o || o->strong == 0) return {};
        ++o->strong;
        return sptr<T>(typename sptr<T>::take{}, o, p);
    }
};

// ---- enable_shared_from ----
struct esf {
    mutable wptr<void> self;
    esf() {}
    esf(const esf&) {}
    esf& operator=(const esf&) { return *this; }
    template <typename T> sptr<T> shared_from(T* p) const {
        if (self.expired()) return {};
        add_strong(self.o);
        return sptr<T>(typename sptr<T>::take{}, self.o, p);
    }
    template <typename T> wptr<T> weak_from(T* p) const { return wptr<T>(self, p); }
    sptr<void> shared_from_this() { return shared_from<void>(self.p); }
    sptr<const void> shared_from_this() const { return shared_from<const void>(self.p); }
    wptr<void> weak_from_this() { return self; }
    wptr<const void> weak_from_this() const { return wptr<const void>(self.o, self.p); }
};
inline void esf_adopt(const esf* e, Owner* o, void* full) {
    if (e->self.expired()) e->self = wptr<void>(o, full);
}

// ---- storage ----
template <typename T>
struct storage {
    sptr<T> v;
    storage() {}
    storage(sptr<T> s) : v(std::move(s)) {}
    sptr<T> load() const { return v; }
    void store(sptr<T> s) { v.swap(s); }
    sptr<T> exchange(sptr<T> s) { v.swap(s); return s; }
    bool compare_exchange(sptr<T>& expect, sptr<T> desired) {
        if (v.p == expect.p) { v.swap(desired); return true; }
        expect = v;
        return false;
    }
};

} // namespace ref
