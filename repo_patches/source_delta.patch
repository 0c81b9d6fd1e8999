From 39f7ea255bc82805e58828f5828a84fc7f7efc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 1/9] fix: shared_ptr::reset(ptr, deleter) must keep the given
 deleter

reset(U*, D) built a unique_ptr with the default deleter, so it did not compile
for most deleters and silently dropped those that convert to default_delete.
---
 code/xmem/basic_shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index d80a1e6..0011ec2 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -112,7 +112,7 @@ public:
 
     template <typename U, typename D>
     void reset(U* u, D d) {
-        operator=(unique_ptr<U>(u, std::move(d)));
+        operator=(unique_ptr<U, D>(u, std::move(d)));
     }
 
     template <typename U, typename D, typename A>
-- 
2.43.0


From 2efa5b1f530ba533b871770335fd289223c581bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 2/9] fix: shared_ptr assignment and reset release the old
 object last

The old object was released while the pointer still referred to it and before
the new value was acquired, so head = head->next used freed memory, and a
destructor which touched the pointer released the object twice.
---
 code/xmem/basic_shared_ptr.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/code/xmem/basic_shared_ptr.hpp b/code/xmem/basic_shared_ptr.hpp
index 0011ec2..3e26cbc 100644
--- a/code/xmem/basic_shared_ptr.hpp
+++ b/code/xmem/basic_shared_ptr.hpp
@@ -29,8 +29,7 @@ public:
     }
     basic_shared_ptr& operator=(const basic_shared_ptr& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -40,8 +39,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(const basic_shared_ptr<CBF, U>& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_copy(r.m);
+        basic_shared_ptr(r).swap(*this);
         return *this;
     }
 
@@ -50,8 +48,7 @@ public:
     }
     basic_shared_ptr& operator=(basic_shared_ptr&& r) noexcept {
         if (&r == this) return *this; // self usurp
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -61,8 +58,7 @@ public:
     }
     template <typename U>
     basic_shared_ptr& operator=(basic_shared_ptr<CBF, U>&& r) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_from_move(r);
+        basic_shared_ptr(std::move(r)).swap(*this);
         return *this;
     }
 
@@ -73,8 +69,7 @@ public:
 
     template <typename U, typename D>
     basic_shared_ptr& operator=(unique_ptr<U, D>&& uptr) {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        init_new(CBF::make_uptr_cb(uptr));
+        basic_shared_ptr(std::move(uptr)).swap(*this);
         return *this;
     }
 
@@ -101,8 +96,7 @@ public:
     }
 
     void reset(std::nullptr_t = nullptr) noexcept {
-        if (m.cb) m.cb->dec_strong_ref(this);
-        m.reset();
+        basic_shared_ptr().swap(*this);
     }
 
     template <typename U>
-- 
2.43.0


From eb4d3a0f627c4ec7c9d3fb37b671cdf1834ea3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 3/9] fix: shared_from on an object whose destruction has begun

A pointer which owned nothing yet was destroyed when the conditional increment
failed, which decremented the strong count from 0. The const overload also
registered its pointer twice with the control block.
---
 code/xmem/basic_shared_from.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index ae73a3d..27de7cf 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -27,24 +27,21 @@ protected:
     basic_enable_shared_from& operator=(const basic_enable_shared_from&) { return *this; }
 
     sptr<void> shared_from_this() {
-        sptr<void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        return shared_from(m.ptr);
     }
     sptr<const void> shared_from_this() const {
-        sptr<const void> ret(m);
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        return shared_from<const void>(m.ptr);
     }
     wptr<void> weak_from_this() { return wptr<void>{m}; }
     wptr<const void> weak_from_this() const { return wptr<const void>{m}; }
 
     template <typename T>
     sptr<T> shared_from(T* ptr) const {
-        cb_ptr_pair<control_block_type, T> alias{m.cb, ptr};
-        sptr<T> ret{alias};
-        if (m.cb && m.cb->inc_strong_ref_nz(&ret)) return ret;
-        return {};
+        sptr<T> ret;
+        if (!m.cb || !m.cb->inc_strong_ref_nz(&ret)) return ret;
+
+        ret.m = cb_ptr_pair<control_block_type, T>{m.cb, ptr};
+        return ret;
     }
 
     template <typename T>
-- 
2.43.0


From 88988054c3c963b03e6788114e5c47bce68e31aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 4/9] fix: adopting a null pointer to a type with
 enable_shared_from

The back link was written through the null pointer.
---
 code/xmem/common_control_block.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index adb4f59..85341fc 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,10 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            ebf_type* ebf = ptr;
-            ebf->m.cb = cb;
-            ebf->m.ptr = ptr;
+            if (ebf_type* ebf = ptr) {
+                ebf->m.cb = cb;
+                ebf->m.ptr = ptr;
+            }
         }
         return {cb, ptr};
     }
-- 
2.43.0


From 660cebaf6379852d65c5ef362dd46e3b0f037908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 5/9] fix: unique_ptr::swap exchanges the deleters too

Only the pointers were exchanged, so each object was deleted with the deleter
that belongs to the other.
---
 code/xmem/unique_ptr.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/code/xmem/unique_ptr.hpp b/code/xmem/unique_ptr.hpp
index b1f714a..42ef8cf 100644
--- a/code/xmem/unique_ptr.hpp
+++ b/code/xmem/unique_ptr.hpp
@@ -97,7 +97,11 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        using std::swap;
+        swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -172,7 +176,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -232,7 +239,10 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        std::swap(m_deleter, other.m_deleter);
+    }
     using common::release;
     using common::operator bool;
     using common::get;
@@ -282,7 +292,11 @@ public:
         }
     }
 
-    void swap(unique_ptr& other) { common::swap(other); }
+    void swap(unique_ptr& other) {
+        common::swap(other);
+        using std::swap;
+        swap(get_deleter(), other.get_deleter());
+    }
     using common::release;
     using common::operator bool;
     using common::get;
-- 
2.43.0


From 0767b77778cc258246113651a066243dd79cdec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 6/9] fix: compare_exchange releases the old expected value
 after unlocking

On failure the old value of expect was released under the spinlock, so an
object whose destructor uses the same storage deadlocked.
---
 code/xmem/basic_atomic_shared_ptr_storage.hpp | 18 ++++++++++--------
 code/xmem/std_helpers.hpp                     | 18 ++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/code/xmem/basic_atomic_shared_ptr_storage.hpp b/code/xmem/basic_atomic_shared_ptr_storage.hpp
index 7e38ac1..1c4388a 100644
--- a/code/xmem/basic_atomic_shared_ptr_storage.hpp
+++ b/code/xmem/basic_atomic_shared_ptr_storage.hpp
@@ -38,15 +38,17 @@ public:
     }
 
     bool compare_exchange(shared_pointer_type& expect, shared_pointer_type ptr) noexcept {
-        impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        shared_pointer_type cur; // outlives the lock as does ptr: no object is destroyed while locked
+        {
+            impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        expect.swap(cur);
+        return false;
     }
 };
 
diff --git a/code/xmem/std_helpers.hpp b/code/xmem/std_helpers.hpp
index cea48f3..6aa1c3b 100644
--- a/code/xmem/std_helpers.hpp
+++ b/code/xmem/std_helpers.hpp
@@ -121,15 +121,17 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        xmem::impl::spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr cur; // outlives the lock as does ptr: no object is destroyed while locked
+        {
+            xmem::impl::spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            cur = m_ptr;
         }
+        expect.swap(cur);
+        return false;
     }
 };
 #endif
-- 
2.43.0


From 439dfa6c86976c5d66e80f3dfb398dd1598566b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 7/9] fix: const objects can be created (make_shared<const T>,
 make_shared_ptr of a const lvalue)

---
 code/xmem/basic_shared_from.hpp    | 2 +-
 code/xmem/common_control_block.hpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/xmem/basic_shared_from.hpp b/code/xmem/basic_shared_from.hpp
index 27de7cf..73271c8 100644
--- a/code/xmem/basic_shared_from.hpp
+++ b/code/xmem/basic_shared_from.hpp
@@ -17,7 +17,7 @@ class basic_enable_shared_from {
     friend CBF;
 
     using control_block_type = typename CBF::cb_type;
-    cb_ptr_pair<control_block_type, void> m;
+    mutable cb_ptr_pair<control_block_type, void> m; // set when ownership begins, of const objects too
 protected:
     basic_enable_shared_from() : m(nullptr) {}
     ~basic_enable_shared_from() = default;
diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 85341fc..a73c6ae 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -97,9 +97,9 @@ struct control_block_factory {
     static pair<T> prepare_pair(cb_type* cb, T* ptr) noexcept {
         using ebf_type = basic_enable_shared_from<control_block_factory>;
         if constexpr (std::is_base_of_v<ebf_type, T>) {
-            if (ebf_type* ebf = ptr) {
+            if (const ebf_type* ebf = ptr) {
                 ebf->m.cb = cb;
-                ebf->m.ptr = ptr;
+                ebf->m.ptr = const_cast<std::remove_cv_t<T>*>(ptr);
             }
         }
         return {cb, ptr};
@@ -119,7 +119,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T(std::forward<Args>(args)...);
+        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -128,7 +128,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) T;
+        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0


From 67828ed2cd07d430f921163257150f7a308c5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 8/9] fix: take the real address of an object whose type
 overloads operator&

---
 code/xmem/common_control_block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index a73c6ae..56ab58b 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     [[nodiscard]] T* obj() {
-        return &m_obj;
+        return std::addressof(m_obj);
     }
 
     virtual void destroy_resource() noexcept override { m_obj.~T(); }
-- 
2.43.0


From a213dd9a26a9ec9f4618b8d9fcf02c34be5ed1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 9/9] fix: create shared objects whose type has an operator new
 of its own

---
 code/xmem/common_control_block.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/xmem/common_control_block.hpp b/code/xmem/common_control_block.hpp
index 56ab58b..409e1a0 100644
--- a/code/xmem/common_control_block.hpp
+++ b/code/xmem/common_control_block.hpp
@@ -110,7 +110,7 @@ struct control_block_factory {
         using uptr_type = unique_ptr<T, Del>;
         using rsrc_type = control_block_resource<cb_type, uptr_type, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (tmp->obj()) uptr_type(std::move(uptr));
+        ::new (static_cast<void*>(tmp->obj())) uptr_type(std::move(uptr));
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj()->get());
     }
@@ -119,7 +119,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb(Alloc a, Args&&... args) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T(std::forward<Args>(args)...);
+        ::new (static_cast<void*>(const_cast<std::remove_cv_t<T>*>(tmp->obj()))) T(std::forward<Args>(args)...);
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
@@ -128,7 +128,7 @@ struct control_block_factory {
     [[nodiscard]] static pair<T> make_resource_cb_for_overwrite(Alloc a) {
         using rsrc_type = control_block_resource<cb_type, T, Alloc>;
         auto tmp = rsrc_type::create(std::move(a));
-        new (const_cast<std::remove_cv_t<T>*>(tmp->obj())) T;
+        ::new (static_cast<void*>(const_cast<std::remove_cv_t<T>*>(tmp->obj()))) T;
         auto cb = tmp.release();
         return prepare_pair(cb, cb->obj());
     }
-- 
2.43.0

