From 6fa8c7f1f8233b0bd0488ff0dc3a1631b53f71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 01/11] fix: keep the target when a function is move-assigned
 to itself

The assignment destroyed the target and then moved from the destroyed
object, so `f = std::move(f)` and `std::swap(f, f)` crashed.
---
 include/embedded/function.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..eccd06c 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -224,8 +224,10 @@ class function final : private detail::function_traits<Signature> {
   }
 
   function& operator=(function&& other) noexcept {
-    this->~function();
-    ::new (this) function(std::move(other));
+    if (this != &other) {
+      this->~function();
+      ::new (this) function(std::move(other));
+    }
     return *this;
   }
 
-- 
2.43.0


From e3f512cd33fa9254064cee719ab360a2e7ea18d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 02/11] fix: find the target of a function with non-default
 alignment

The call operator cast to the function type with default capacity and
alignment, so it passed a wrong storage address to the target whenever
the alignment moved the storage.
---
 include/embedded/function.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index eccd06c..b18e15d 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -121,30 +121,32 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Signature, size_t Capacity, size_t Alignment>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...), Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn = static_cast<function<Return(Args...), Capacity, Alignment>*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...) const, Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn =
+        static_cast<function<Return(Args...) const, Capacity, Alignment> const*>(
+            this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -175,9 +177,10 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<Signature, Capacity, Alignment> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<Signature, Capacity, Alignment>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From e1c6ff24c0c9e6c5b596e36f6bad3ede3191394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 03/11] fix: invoke the target of a const function as const

A function<R(Args...) const> accepted a target by its const call operator
but then called the non-const overload, if the target had one.
---
 include/embedded/function.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index b18e15d..429597f 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -65,7 +65,7 @@ class vtbl<Return(Args...)> {
   template <typename T>
   explicit constexpr vtbl(wrap<T>) noexcept
       : call{&vt_call<T>}
-      , proc{&vt_proc<T>} {}
+      , proc{&vt_proc<typename std::remove_const<T>::type>} {}
 
  private:
   static Return empty_call(storage_t, Args&&...) {
@@ -128,6 +128,8 @@ template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
 struct function_traits<Return(Args...), Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
+  template <typename T>
+  using target = T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
@@ -141,6 +143,8 @@ template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
 struct function_traits<Return(Args...) const, Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
+  template <typename T>
+  using target = T const;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
@@ -185,7 +189,8 @@ class function final
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
   template <typename T>
-  using typed_vtbl = detail::typed_vtbl<signature, T>;
+  using typed_vtbl =
+      detail::typed_vtbl<signature, typename traits::template target<T>>;
 
   friend traits;
 
-- 
2.43.0


From c7fd7e3092245ed59d1a1247301bb9569093edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 04/11] fix: let a throwing move propagate out of the
 move_wrapper constructor

The noexcept specification tested for default construction.
---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..b6796f1 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_move_constructible<T>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From e6948835c9f951da641956c8f2d9131420bc2425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 05/11] fix: make const_iterator usable for circular buffers of
 mutable items

It could neither be copied nor moved along the buffer, so cbegin()/cend()
and crbegin()/crend() did not compile in any useful expression.
---
 include/embedded/detail/circular_buffer_adapter.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..c2bfba3 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,7 +67,14 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  cba_iterator(cba_iterator const&) = default;
+
+  template <typename Tr,
+            typename std::enable_if<
+                std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+                    !std::is_same<Tr, Traits>::value,
+                bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
@@ -183,7 +190,7 @@ class cba_iterator {
   }
 
  private:
-  cba_iterator(circular_buffer_adapter<T> const* adapter, pointer it)
+  cba_iterator(circular_buffer_adapter<T> const* adapter, T* it)
       : adapter_{adapter}
       , it_{it} {}
 
@@ -191,10 +198,10 @@ class cba_iterator {
     return it_ ? adapter_->index(it_) : adapter_->size();
   }
 
-  pointer realiter() const { return it_ ? it_ : adapter_->last_; }
+  T* realiter() const { return it_ ? it_ : adapter_->last_; }
 
   circular_buffer_adapter<T> const* adapter_{nullptr};
-  pointer it_{nullptr};
+  T* it_{nullptr};
 };
 
 template <typename T, typename Traits>
-- 
2.43.0


From 7458da2d2c871cb320c52894c639adfbabce94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 06/11] fix: wrap the start position of a circular buffer
 created at its end

The constructor allows `first == end`, but front() then accessed the item
past the end of the storage.
---
 include/embedded/circular_buffer_adapter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index bd4f0fc..1e1a248 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -95,8 +95,8 @@ class circular_buffer_adapter {
                           size_type item_count)
       : begin_{begin}
       , end_{end}
-      , first_{first}
-      , last_{add(first, item_count)}
+      , first_{add(first, 0)}
+      , last_{add(first_, item_count)}
       , size_{item_count} {
     assert(begin <= first);
     assert(first <= end);
-- 
2.43.0


From 8b2a283754a735ed47ab5a0244ef452496ffe80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 07/11] fix: do not let a function target's list constructor
 take its move

With braces, a target type that has an initializer-list constructor whose
elements are constructible from the target itself (a callable built from a
list of callables, say) was wrapped in a list of one instead of being moved,
and once more every time the wrapper was moved.
---
 include/embedded/function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 429597f..6e20174 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -87,7 +87,7 @@ class vtbl<Return(Args...)> {
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
     case oper::move:
-      ::new (dst) T{std::move(*static_cast<T*>(src))};
+      ::new (dst) T(std::move(*static_cast<T*>(src)));
       // fallthrough
     case oper::destroy:
       static_cast<T*>(src)->~T();
@@ -221,7 +221,7 @@ class function final
     static_assert(Alignment % alignof(C) == 0,
                   "function<> alignment too small for this type");
 
-    ::new (std::addressof(storage_)) C{std::forward<T>(fun)};
+    ::new (std::addressof(storage_)) C(std::forward<T>(fun));
   }
 
   function(function&& other) noexcept
-- 
2.43.0


From 025ce79b0aff57b472d32bc0a3631251b6524817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 08/11] fix: move the object into a move_wrapper, even if it
 has a list constructor

With braces, an object whose initializer-list constructor accepts the object
itself (std::vector<std::any>, most JSON values) ended up as the only item of
a new list, and one level deeper with every copy of the wrapper.
---
 include/embedded/move_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index b6796f1..222a721 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -32,14 +32,14 @@ class move_wrapper {
  public:
   explicit move_wrapper(T&& t) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::forward<T>(t)} {}
+      : val_(std::forward<T>(t)) {}
 
   move_wrapper(move_wrapper const& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(const_cast<move_wrapper&>(other).val_)} {}
+      : val_(std::move(const_cast<move_wrapper&>(other).val_)) {}
   move_wrapper(move_wrapper&& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(other.val_)} {}
+      : val_(std::move(other.val_)) {}
 
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
-- 
2.43.0


From a868acf39c296c77b772640002d79f7f6437180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 09/11] fix: construct circular buffer items at their place,
 with any operator new

The placement new of an item looked up operator new in the class of the
item first, so items of a class with its own operator new could not be
pushed or emplaced at all.
---
 include/embedded/circular_buffer_adapter.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index 1e1a248..5ad3a30 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -158,14 +158,14 @@ class circular_buffer_adapter {
 
   void push_front(const value_type& value) {
     assert(!full());
-    new (prev(first_)) value_type(value);
+    ::new (static_cast<void*>(prev(first_))) value_type(value);
     dec(first_);
     ++size_;
   }
 
   void push_front(value_type&& value) {
     assert(!full());
-    new (prev(first_)) value_type(std::move(value));
+    ::new (static_cast<void*>(prev(first_))) value_type(std::move(value));
     dec(first_);
     ++size_;
   }
@@ -173,7 +173,8 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_front(Args&&... args) {
     assert(!full());
-    auto p = new (prev(first_)) value_type(std::forward<Args>(args)...);
+    auto p = ::new (static_cast<void*>(prev(first_)))
+        value_type(std::forward<Args>(args)...);
     dec(first_);
     ++size_;
     return *p;
@@ -195,14 +196,14 @@ class circular_buffer_adapter {
 
   void push_back(const value_type& value) {
     assert(!full());
-    new (last_) value_type(value);
+    ::new (static_cast<void*>(last_)) value_type(value);
     inc(last_);
     ++size_;
   }
 
   void push_back(value_type&& value) {
     assert(!full());
-    new (last_) value_type(std::move(value));
+    ::new (static_cast<void*>(last_)) value_type(std::move(value));
     inc(last_);
     ++size_;
   }
@@ -210,7 +211,8 @@ class circular_buffer_adapter {
   template <typename... Args>
   reference emplace_back(Args&&... args) {
     assert(!full());
-    auto p = new (last_) value_type(std::forward<Args>(args)...);
+    auto p = ::new (static_cast<void*>(last_))
+        value_type(std::forward<Args>(args)...);
     inc(last_);
     ++size_;
     return *p;
-- 
2.43.0


From 300a24a3fea2d8de31e8a7871607363cb278b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 10/11] fix: point at the object in a move_wrapper, even if it
 has its own operator&

---
 include/embedded/move_wrapper.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index 222a721..924cc47 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -44,8 +45,8 @@ class move_wrapper {
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
 
-  T const* operator->() const { return &val_; }
-  T* operator->() { return &val_; }
+  T const* operator->() const { return std::addressof(val_); }
+  T* operator->() { return std::addressof(val_); }
 
  private:
   T val_;
-- 
2.43.0


From 676600eab46016a17b620ee1287c62d9e2df0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 11/11] fix: let pop_front() and pop_back() compile for an
 adapter over read-only items

---
 include/embedded/circular_buffer_adapter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index 5ad3a30..8d33eb0 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -361,7 +361,7 @@ class circular_buffer_adapter {
     }
   }
 
-  void destroy(value_type* p) const { p->~value_type(); }
+  void destroy(pointer p) const { p->~value_type(); }
 
   pointer first_iter() const { return size_ != 0 ? first_ : 0; }
 
-- 
2.43.0

