From a0e93c95bd3afcfa1de41bdb038c5d0bd5889bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:37 +0000
Subject: [PATCH 01/17] fix: shared_ptr: release the old owner last in
 assignments and reset

The right-hand side may live inside the object which the assignment releases
(head = head->next), destroying the old object may end up in the same pointer
again, and taking over a unique_ptr may throw: in all of these the pointer
used to be read or released again after its owner was gone.
---
 code/xmem/basic_shared_ptr.hpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..c1cd532 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,7 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -40,8 +39,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -50,8 +48,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -61,8 +58,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -73,8 +69,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        basic_shared_ptr(std::move(uptr)).swap(*this);
         return *this;
     }
 
@@ -101,8 +96,10 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
+        // clear before releasing: the destruction of the object may end up here again
+        auto old = m;
         m.reset();
+        if (old.cb) old.cb->dec_strong_ref(this);
     }
 
     template <typename U>
-- 
2.43.0


From 7c82d7eace44e286eeefaafbe57134f0be2b6ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 02/17] fix: shared_from: don't release a strong ref which was
 never taken

A failed attempt (the object is being destroyed) used to decrement the strong
count below zero. The const shared_from_this reported the result to the control
block twice.
---
 code/xmem/basic_shared_from.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..369b7dd 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -26,25 +26,17 @@ protected:
     basic_enable_shared_from(const basic_enable_shared_from&) : m(nullptr) {}
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
-    sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
-    }
-    sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
-    }
+    sptr<void> shared_from_this() { return shared_from(m.ptr); }
+    sptr<const void> shared_from_this() const { return shared_from<const void>(m.ptr); }
     wptr<void> weak_from_this() { return wptr<void>{m}; }
     wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
-        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        // set the result only after it's counted: it must not release a ref which was never taken
+        sptr<T> ret;
+        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};
+        return ret;
     }
 
     template <typename T>
-- 
2.43.0


From 5438ae2d5e124018910abc5e54a41a15c6173f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 03/17] fix: don't dereference null when adopting a null
 enable_shared_from type

---
 code/xmem/common_control_block.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..85341fc 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,10 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ebf_type* ebf = ptr) {
+                ebf->m.cb = cb;
+                ebf->m.ptr = ptr;
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From 70a2126e30724ea6772b0ffe8c4a832487dfbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 04/17] fix: unique_ptr: swap the deleters together with the
 pointers

Every object must be deleted by the deleter it came with.
---
 code/xmem/unique_ptr.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..42ef8cf 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,11 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        using std::swap;
+        swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +176,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +239,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +292,11 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        using std::swap;
+        swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From 0109c5d4699a9416182b924aa0cc7f9359f24532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 05/17] fix: shared_ptr: reset(ptr, deleter) must use the
 deleter

---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index c1cd532..ce80821 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -109,7 +109,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From 53e6cdfbfb9921348629933d151e72f2fd612e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:09 +0000
Subject: [PATCH 06/17] fix: unique_ptr: don't move from a deleter which the
 source holds by reference

---
 code/xmem/unique_ptr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index 42ef8cf..d31a129 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -80,12 +80,13 @@ public:
     template <typename D2>
     unique_ptr(pointer p, D2&& d) noexcept : common(p), D(std::forward<D2>(d)) {}
 
+    // forward: if D2 is a reference, the deleter is not ours to move from
     template <typename U, typename D2>
-    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::move(other.get_deleter())) {}
+    unique_ptr(unique_ptr<U, D2>&& other) noexcept : common(other.release()), D(std::forward<D2>(other.get_deleter())) {}
     template <typename U, typename D2>
     unique_ptr& operator=(unique_ptr<U, D2>&& other) noexcept {
         reset(other.release());
-        get_deleter() = std::move(other.get_deleter());
+        get_deleter() = std::forward<D2>(other.get_deleter());
         return *this;
     }
 
-- 
2.43.0


From ebaf5ca0e6768566823aef522104c87a1b62dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 07/17] fix: unique_ptr: a function deleter must accept the
 pointer, not the other way around

The static_assert rejected deleters for a base (or void) and so made the
converting move of such pointers unusable.
---
 code/xmem/unique_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index d31a129..c6e7044 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -193,7 +193,7 @@ public:
 
 template <typename T, typename B>
 class unique_ptr<T, void(*)(B*)> : public impl::uptr_common<T*> {
-    static_assert(std::is_convertible_v<B*, T*>, "unique_ptr type needs to be convertible to deleter type");
+    static_assert(std::is_convertible_v<T*, B*>, "unique_ptr type needs to be convertible to deleter type");
     using common = impl::uptr_common<T*>;
     void (*m_deleter)(B*);
 public:
-- 
2.43.0


From 416059d692620dc85288c5a29e8b0fdf394c5e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:34 +0000
Subject: [PATCH 08/17] fix: make_shared of const objects

make_shared_ptr(const lvalue) deduces a const object, which placement new could
not be used for.
---
 code/xmem/common_control_block.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 85341fc..ded3b96 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -119,7 +119,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T(std::forward<Args>(args)...);
+        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -128,7 +128,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T;
+        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From 427aeea73fb920fba63632f283790f78118e6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 09/17] fix: shared_ptr of arrays: use array delete and allow
 adopting unique_ptr of arrays

---
 code/xmem/basic_shared_ptr.hpp     | 8 ++++++--
 code/xmem/common_control_block.hpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index ce80821..869bfe1 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -77,7 +77,7 @@ public:
     basic_shared_ptr(std::nullptr_t, D d) : basic_shared_ptr(unique_ptr<T, D>(nullptr, std::move(d))) {}
 
     template <typename U>
-    explicit basic_shared_ptr(U* p) : basic_shared_ptr(unique_ptr<U>(p)) {}
+    explicit basic_shared_ptr(U* p) : basic_shared_ptr(default_uptr<U>(p)) {}
 
     template <typename U, typename D>
     basic_shared_ptr(U* p, D d) : basic_shared_ptr(unique_ptr<U, D>(p, std::move(d))) {}
@@ -104,7 +104,7 @@ public:
 
     template <typename U>
     void reset(U* u) {
-        operator=(unique_ptr<U>(u));
+        operator=(default_uptr<U>(u));
     }
 
     template <typename U, typename D>
@@ -154,6 +154,10 @@ public:
     }
 
 private:
+    // the default owner of a U*: arrays need an array delete
+    template <typename U>
+    using default_uptr = unique_ptr<std::conditional_t<std::is_array_v<T>, U[], U>>;
+
     // not new! rc taken care of from the outside
     explicit basic_shared_ptr(const cb_ptr_pair_type& cbptr) noexcept : m(cbptr) {}
 
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index ded3b96..6725462 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -106,7 +106,7 @@ struct control_block_factory {
     }
 
     template <typename T, typename Del, typename Alloc = allocator<char>>
-    [[nodiscard]] static pair<T> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
+    [[nodiscard]] static pair<std::remove_extent_t<T>> make_uptr_cb(unique_ptr<T, Del>& uptr, Alloc a = {}) {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-- 
2.43.0


From d4fe125f8c41a4fecf4125c3aedc56b53c03963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 10/17] fix: atomic_shared_ptr_storage: don't destroy the old
 expected value under the lock

Its destructor may use the same storage, which locked up forever.
---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 19 +++++++++++--------
 code/xmem/std_helpers.hpp                     | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..f759b43 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,15 +38,18 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
-        impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        shared_pointer_type cur;
+        {
+            impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        // not under the lock: the old value of expect may be the last ref to an object
+        expect = std::move(cur);
+        return false;
     }
 };
 
diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..320258f 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,15 +121,18 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        xmem::impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur;
+        {
+            xmem::impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        // not under the lock: the old value of expect may be the last ref to an object
+        expect = std::move(cur);
+        return false;
     }
 };
 #endif
-- 
2.43.0


From 5e4eaf18cfb9bd024e1eac588cd43aa0f1f5777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 11/17] fix: allocator: refuse sizes which overflow instead of
 allocating too little

---
 code/xmem/allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/xmem/allocator.hpp b/code/xmem/allocator.hpp
index de67253..847c783 100644
--- a/code/xmem/allocator.hpp
+++ b/code/xmem/allocator.hpp
@@ -3,6 +3,7 @@
 //
 #pragma once
 #include <memory>
+#include <new>
 
 namespace xmem {
 
@@ -20,6 +21,7 @@ public:
     static inline constexpr std::align_val_t align_val{alignof(T)};
 
     [[nodiscard]] T* allocate(size_t n) {
+        if (n > size_t(-1) / sizeof(T)) throw std::bad_array_new_length{};
         auto ret = ::operator new(n * sizeof(T), align_val);
         return reinterpret_cast<T*>(ret);
     }
-- 
2.43.0


From 17d1f4939fe3b5b3fc766b80d40fcac95722a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 12/17] fix: return the memory if the constructor of a control
 block throws

---
 code/xmem/common_control_block.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 6725462..7a1f1f2 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -66,8 +66,13 @@ public:
     using control_block_resource_ptr = unique_ptr<control_block_resource, void(*)(control_block_resource*)>;
     [[nodiscard]] static control_block_resource_ptr create(Alloc a) {
         auto myalloc = get_self_alloc(a);
-        auto self = myalloc.allocate(1);
-        new (self) control_block_resource(std::move(a));
+        struct storage { // give the memory back if the constructor throws
+            self_alloc_type& alloc;
+            control_block_resource* ptr;
+            ~storage() { if (ptr) alloc.deallocate(ptr, 1); }
+        } mem{myalloc, myalloc.allocate(1)};
+        auto self = new (mem.ptr) control_block_resource(std::move(a));
+        mem.ptr = nullptr;
         return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
 
-- 
2.43.0


From 589b47dc24b94473462c0a191b0325bb497c35c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 13/17] fix: enable_shared_from: don't use the control block
 after it's gone, support const objects

An object may outlive its owners (a deleter need not destroy it), so it can't keep a raw pointer to the control block.
Keep a weak ref instead.
---
 code/xmem/basic_shared_from.hpp    | 25 ++++++++++++++-----------
 code/xmem/basic_weak_ptr.hpp       |  1 +
 code/xmem/common_control_block.hpp |  7 ++++---
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index 369b7dd..4d862db 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -17,32 +17,35 @@ class basic_enable_shared_from {
     friend CBF;
 
     using control_block_type = typename CBF::cb_type;
-    cb_ptr_pair<control_block_type, void> m;
+
+    // a weak ref, because the object may outlive its control block: not every deleter destroys it
+    // mutable, because const objects have owners too
+    mutable wptr<void> m_self;
 protected:
-    basic_enable_shared_from() : m(nullptr) {}
+    basic_enable_shared_from() noexcept = default;
     ~basic_enable_shared_from() = default;
 
-    // don't touch m on copy
-    basic_enable_shared_from(const basic_enable_shared_from&) : m(nullptr) {}
+    // don't touch m_self on copy
+    basic_enable_shared_from(const basic_enable_shared_from&) noexcept {}
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
-    sptr<void> shared_from_this() { return shared_from(m.ptr); }
-    sptr<const void> shared_from_this() const { return shared_from<const void>(m.ptr); }
-    wptr<void> weak_from_this() { return wptr<void>{m}; }
-    wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
+    sptr<void> shared_from_this() { return shared_from(m_self.m.ptr); }
+    sptr<const void> shared_from_this() const { return shared_from<const void>(m_self.m.ptr); }
+    wptr<void> weak_from_this() { return m_self; }
+    wptr<const void> weak_from_this() const { return m_self; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
         // set the result only after it's counted: it must not release a ref which was never taken
         sptr<T> ret;
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};
+        auto cb = m_self.m.cb;
+        if (cb && cb->inc_strong_ref_nz(&ret)) ret.m = cb_ptr_pair<control_block_type, T>{cb, ptr};
         return ret;
     }
 
     template <typename T>
     wptr<T> weak_from(T* ptr) const {
-        if (!m.cb) return {};
-        return wptr<T>(cb_ptr_pair<control_block_type, T>{m.cb, ptr});
+        return wptr<T>(m_self, ptr);
     }
 };
 
diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 49735e6..505662d 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -162,6 +162,7 @@ private:
     cb_ptr_pair_type m;
 
     template <typename, typename> friend class basic_weak_ptr;
+    template <typename> friend class basic_enable_shared_from;
 };
 
 template <typename CBF, typename T>
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 7a1f1f2..bdc3be4 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -102,9 +102,10 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            if (ebf_type* ebf = ptr) {
-                ebf->m.cb = cb;
-                ebf->m.ptr = ptr;
+            const ebf_type* ebf = ptr;
+            if (ebf && ebf->m_self.expired()) {
+                using self_type = decltype(ebf->m_self);
+                ebf->m_self = self_type(pair<void>(cb, const_cast<std::remove_cv_t<T>*>(ptr)));
             }
         }
         return {cb, ptr};
-- 
2.43.0


From 4d6205521dcf6317b1a7de7ff902964b89f60b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:59 +0000
Subject: [PATCH 14/17] fix: weak_ptr: don't convert to a virtual base through
 an object which may be gone

---
 code/xmem/basic_weak_ptr.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index 505662d..a585985 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -30,12 +30,13 @@ public:
 
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(r.m);
+        init_from_copy(convert(r));
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
+        auto rm = convert(r);
         if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(r.m);
+        init_from_copy(rm);
         return *this;
     }
 
@@ -155,10 +156,29 @@ private:
 
     template <typename U>
     void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
-        m = std::move(r.m);
+        m = convert(r);
+        r.m.reset();
         if (m.cb) m.cb->transfer_weak(this, &r);
     }
 
+    // converting a pointer to a pointer to a virtual base reads the pointed-to object
+    // such conversions can be recognized by being impossible to static_cast back
+    template <typename From, typename To, typename = void>
+    struct needs_live_object : std::true_type {};
+    template <typename From, typename To>
+    struct needs_live_object<From, To, std::void_t<decltype(static_cast<From*>(static_cast<To*>(nullptr)))>> : std::false_type {};
+
+    template <typename U>
+    static cb_ptr_pair_type convert(const basic_weak_ptr<CBF, U>& r) noexcept {
+        using from = std::remove_cv_t<typename basic_weak_ptr<CBF, U>::element_type>;
+        if constexpr (needs_live_object<from, std::remove_cv_t<element_type>>::value) {
+            return cb_ptr_pair_type(r.m.cb, r.lock().get());
+        }
+        else {
+            return r.m;
+        }
+    }
+
     cb_ptr_pair_type m;
 
     template <typename, typename> friend class basic_weak_ptr;
-- 
2.43.0


From f96b87cc19eac51b679663732c7b84990a72c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 15/17] fix: make_shared of a type which overloads operator&
 used what that returns for the object

---
 code/xmem/common_control_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index bdc3be4..435dbb8 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -77,7 +77,7 @@ public:
     }
 
     [[nodiscard]] T* obj() {
-        return &m_obj;
+        return std::addressof(m_obj);
     }
 
     virtual void destroy_resource() noexcept override { m_obj.~T(); }
-- 
2.43.0


From 6954066074a685dd035d6f0d3dd4190980b6800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 16/17] fix: make_shared of a type with an operator new of its
 own did not compile

---
 code/xmem/common_control_block.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 435dbb8..9ef787c 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -71,7 +71,7 @@ public:
             control_block_resource* ptr;
             ~storage() { if (ptr) alloc.deallocate(ptr, 1); }
         } mem{myalloc, myalloc.allocate(1)};
-        auto self = new (mem.ptr) control_block_resource(std::move(a));
+        auto self = ::new (static_cast<void*>(mem.ptr)) control_block_resource(std::move(a));
         mem.ptr = nullptr;
         return control_block_resource_ptr(self, [](control_block_resource* ptr) { ptr->destroy_self(); });
     }
@@ -116,7 +116,7 @@ struct control_block_factory {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) uptr_type(std::move(uptr));
+        ::new (static_cast<void*>(tmp->obj())) uptr_type(std::move(uptr));
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj()->get());
     }
@@ -125,7 +125,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T(std::forward<Args>(args)...);
+        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -134,7 +134,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T;
+        ::new (const_cast<void*>(static_cast<const volatile void*>(tmp->obj()))) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From 9b2b05054bf64ed215e124df62ff072775f872ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 17/17] fix: weak_ptr: convert to a virtual base before
 changing the pointer, as it may destroy the object

---
 code/xmem/basic_weak_ptr.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/code/xmem/basic_weak_ptr.hpp b/code/xmem/basic_weak_ptr.hpp
index a585985..faf11e6 100644
--- a/code/xmem/basic_weak_ptr.hpp
+++ b/code/xmem/basic_weak_ptr.hpp
@@ -30,13 +30,14 @@ public:
 
     template <typename U>
     basic_weak_ptr(const basic_weak_ptr<CBF, U>& r) noexcept {
-        init_from_copy(convert(r));
+        auto ptr = convert(r);
+        init_from_copy(cb_ptr_pair_type(r.m.cb, ptr));
     }
     template <typename U>
     basic_weak_ptr& operator=(const basic_weak_ptr<CBF, U>& r) noexcept {
-        auto rm = convert(r);
+        auto ptr = convert(r);
         if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_copy(rm);
+        init_from_copy(cb_ptr_pair_type(r.m.cb, ptr));
         return *this;
     }
 
@@ -56,8 +57,9 @@ public:
     }
     template <typename U>
     basic_weak_ptr& operator=(basic_weak_ptr<CBF, U>&& r) noexcept {
+        auto ptr = convert(r);
         if (m.cb) m.cb->dec_weak_ref(this);
-        init_from_move(r);
+        init_from_move(r, ptr);
         return *this;
     }
 
@@ -156,26 +158,33 @@ private:
 
     template <typename U>
     void init_from_move(basic_weak_ptr<CBF, U>& r) noexcept {
-        m = convert(r);
+        init_from_move(r, convert(r));
+    }
+
+    template <typename U>
+    void init_from_move(basic_weak_ptr<CBF, U>& r, element_type* ptr) noexcept {
+        m = cb_ptr_pair_type(r.m.cb, ptr);
         r.m.reset();
         if (m.cb) m.cb->transfer_weak(this, &r);
     }
 
     // converting a pointer to a pointer to a virtual base reads the pointed-to object
     // such conversions can be recognized by being impossible to static_cast back
+    // another thread may release the object meanwhile, so that the conversion destroys it:
+    // convert before changing anything, as the destruction may end up here again
     template <typename From, typename To, typename = void>
     struct needs_live_object : std::true_type {};
     template <typename From, typename To>
     struct needs_live_object<From, To, std::void_t<decltype(static_cast<From*>(static_cast<To*>(nullptr)))>> : std::false_type {};
 
     template <typename U>
-    static cb_ptr_pair_type convert(const basic_weak_ptr<CBF, U>& r) noexcept {
+    static element_type* convert(const basic_weak_ptr<CBF, U>& r) noexcept {
         using from = std::remove_cv_t<typename basic_weak_ptr<CBF, U>::element_type>;
         if constexpr (needs_live_object<from, std::remove_cv_t<element_type>>::value) {
-            return cb_ptr_pair_type(r.m.cb, r.lock().get());
+            return r.lock().get();
         }
         else {
-            return r.m;
+            return r.m.ptr;
         }
     }
 
-- 
2.43.0

