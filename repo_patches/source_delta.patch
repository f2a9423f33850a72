From 8351e7a0200f5c6037142a77cec5fd09fb21ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 01/26] fix: vector::clear did not compile (no 3-argument
 destroy)

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..cbd5ce3 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -553,7 +553,7 @@ vector<T, A>::shrink_to_fit_nothrow(OperationError& err) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 void vector<T, A>::clear() NESTL_NOEXCEPT_SPEC
 {
-    nestl::detail::destroy(m_allocator, m_start, m_finish);
+    nestl::detail::destroy(m_start, m_finish);
     m_finish = m_start;
 }
 
-- 
2.43.0


From df8cac85838ab191c958df89b3bc4625cd210456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 02/26] fix: vector range insert_nothrow did not compile
 (undefined NESTL_ASSERT, uninitialised result)

---
 nestl/implementation/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index cbd5ce3..3487a08 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -743,13 +743,13 @@ template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
 vector<T, A>::insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    NESTL_ASSERT(pos >= m_start);
-    NESTL_ASSERT(pos <= m_finish);
+    assert(pos >= m_start);
+    assert(pos <= m_finish);
 
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
-    iterator res;
+    iterator res = m_start + offset;
     for ( ; first != last; ++first, ++offset)
     {
         const_iterator newPos = m_start + offset;
-- 
2.43.0


From e309d875d017e75c54204cb45c31523239b1e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 03/26] fix: vector insert left a hole on element copy failure
 and misread arguments aliasing its own elements

---
 nestl/implementation/vector.hpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 3487a08..1ddec19 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -6,6 +6,7 @@
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
+#include <nestl/alignment.hpp>
 #include <nestl/class_operations.hpp>
 
 #include <nestl/detail/destroy.hpp>
@@ -704,6 +705,29 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
+    if ((pos == m_finish) && (capacity() > size()))
+    {
+        nestl::class_operations::construct(err, m_finish, std::forward<Args>(args) ...);
+        if (err)
+        {
+            return end();
+        }
+
+        ++m_finish;
+        return m_finish - 1;
+    }
+
+    /// args may refer to our own elements, so new value should be constructed before reallocation and before shifting
+    nestl::aligned_buffer<value_type> buffer;
+    value_type* newValue = buffer.ptr();
+    nestl::class_operations::construct(err, newValue, std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    value_type* newValueEnd = newValue + 1;
+    nestl::detail::destruction_scoped_guard<value_type*> newValueGuard(newValue, newValueEnd);
+
     if (capacity() == size())
     {
         grow(err, capacity() + 1);
@@ -722,15 +746,21 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            /// there is a hole at val, drop elements behind it
+            nestl::detail::destroy(val + 1, last + 1);
+            m_finish = val;
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
     }
 
 
-	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+	nestl::class_operations::construct(err, first, std::move_if_noexcept(*newValue));
     if (err)
     {
+        /// there is a hole at first, drop elements behind it
+        nestl::detail::destroy(first + 1, last + 1);
+        m_finish = first;
         return end();
     }
 
-- 
2.43.0


From f80d320ea28ac594eb0a996e61be231e07ed593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 04/26] fix: vector resize reallocated within capacity and
 misread a value aliasing its own element

---
 nestl/implementation/vector.hpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 1ddec19..e897a5e 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -624,7 +624,25 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
-    do_resize(err, count, value);
+    if (count > capacity())
+    {
+        /// value may refer to our own element, so it should be copied before reallocation
+        nestl::aligned_buffer<value_type> buffer;
+        value_type* newValue = buffer.ptr();
+        nestl::class_operations::construct(err, newValue, value);
+        if (err)
+        {
+            return;
+        }
+        value_type* newValueEnd = newValue + 1;
+        nestl::detail::destruction_scoped_guard<value_type*> newValueGuard(newValue, newValueEnd);
+
+        do_resize(err, count, static_cast<const value_type&>(*newValue));
+    }
+    else
+    {
+        do_resize(err, count, value);
+    }
 }
 
 template <typename T, typename A>
@@ -805,10 +823,13 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
     }
     else
     {
-        grow(err, count);
-        if (err)
+        if (count > capacity())
         {
-            return;
+            grow(err, count);
+            if (err)
+            {
+                return;
+            }
         }
 
         while (m_finish < m_start + count)
-- 
2.43.0


From 9609810e1e73c50c2226ac920caedb96c727be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:40 +0000
Subject: [PATCH 05/26] fix: two-phase initialization of nested vector was
 never found (construct instead of init)

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index e897a5e..e3bbc04 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -215,7 +215,7 @@ struct two_phase_initializator<nestl::impl::vector<T, Allocator>>
     typedef nestl::impl::vector<T, Allocator> vector_t;
 
     template <typename OperationError>
-    static void construct(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
+    static void init(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
     {
         defaultConstructed.copy_nothrow(err, other);
     }
-- 
2.43.0


From 8ec70edfc2512bd54aa1123d3be727f16d774078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 06/26] fix: vector move assignment and assign lost track of
 the allocator owning the storage

---
 nestl/implementation/vector.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index e3bbc04..5a23761 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -312,7 +312,11 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// source may refer to our own elements, so old content is released at exit
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> storageGuard(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> contentGuard(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assert(empty());
 
@@ -338,7 +342,11 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// source may refer to our own elements, so old content is released at exit
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> storageGuard(m_allocator, m_start, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> contentGuard(m_start, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
@@ -667,7 +675,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 {
 	const vector destroyContentAtExit(std::move(*this));
 
-    this->swap_data(other);
+    this->swap(other);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From c966f12053ae270fb0ee9b1e4f4056fb620796a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 07/26] fix: list move assignment did not compile and did not
 take over the allocator of the nodes

---
 nestl/has_exceptions/list.hpp | 3 ++-
 nestl/implementation/list.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..91da4f0 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,8 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+        return *this;
     }
 
     list(const list& other)
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..a2b2e4e 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -698,7 +698,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1264,6 +1264,7 @@ void
 list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NESTL_NOEXCEPT_SPEC
 {
     const list tmp(std::move(*this));
+    std::swap(m_node_allocator, other.m_node_allocator);
     this->swap_data(other);
 }
 
-- 
2.43.0


From 033b008e25c2b81d9a6aeabb83f246c8d16ec9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 08/26] fix: list range insert_nothrow inserted the range in
 reverse order

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index a2b2e4e..738a356 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -938,7 +938,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        pos = insert_nothrow(err, pos, *first);
+        insert_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From b9d281ad879df1c2ca74bca155fe39b10a28372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 09/26] fix: list range erase did not compile

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 738a356..946c394 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -991,7 +991,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 6bc1b58adbc9d1cfa9c8ba3580b1d03416281d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 10/26] fix: max_size of list and set did not compile (no
 allocator_traits::max_size)

---
 nestl/allocator_traits.hpp    | 5 +++++
 nestl/implementation/list.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..cd9341e 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -47,6 +47,11 @@ struct allocator_traits
     {
         alloc.deallocate(ptr, n);
     }
+
+    static size_type max_size(const Allocator& /* alloc */) NESTL_NOEXCEPT_SPEC
+    {
+        return std::numeric_limits<size_type>::max() / sizeof(value_type);
+    }
 };
 
 } // namespace nestl
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 946c394..8ac6328 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -886,7 +886,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return nestl::allocator_traits<node_allocator_type>::max_size(m_node_allocator);
 }
 
 
-- 
2.43.0


From 2a19e4391c0f84be8ff45571dda6655e374bdb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 11/26] fix: list range splice corrupted the list when the
 range already precedes pos

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 8ac6328..46de827 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1169,7 +1169,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if (first != last)
+    if ((first != last) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From b03b4f835806ed3b50b0a1634c5ec102c64df8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 12/26] fix: list assign, copy and swap released nodes through
 a foreign allocator

---
 nestl/has_exceptions/list.hpp | 1 +
 nestl/implementation/list.hpp | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 91da4f0..4ba8469 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -48,6 +48,7 @@ public:
     }
 
     list(const list& other)
+        : base_t(other.get_allocator())
     {
         default_operation_error err;
         this->copy_nothrow(err, other);
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 46de827..0988a41 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -716,7 +716,7 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (n > 0)
     {
@@ -736,7 +736,7 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (first != last)
     {
@@ -1061,6 +1061,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1220,7 +1221,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From 590ed3af7f2cbca1fc2dbe09f006be94130e39a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 13/26] fix: set::copy_nothrow did not compile (no
 propagate_on_container_copy_assignment)

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index cd9341e..c5303ff 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From 06f9c60be2b582d72c39e170a8288ca741fc6f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 14/26] fix: set move assignment did not compile

---
 nestl/implementation/detail/red_black_tree.hpp | 18 +++++++-----------
 nestl/implementation/set.hpp                   | 12 ++----------
 2 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..fe8165f 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,8 +1265,8 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
-    m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
+    void
+    m_move_assign(rb_tree& other, std::true_type) NESTL_NOEXCEPT_SPEC;
 
 private:
     // Move elements from container with equal allocator.
@@ -1381,24 +1381,20 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
-rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
+void
+rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x, std::true_type) NESTL_NOEXCEPT_SPEC
 {
-    m_impl.m_key_compare = x.m_impl.m_key_compare;
-
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    if (this != &x)
     {
+        m_impl.m_key_compare = x.m_impl.m_key_compare;
+
         clear();
         if (x.m_root() != 0)
         {
             m_move_data(x, std::true_type());
         }
         nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
     }
-    return false;
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..115ac44 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,8 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(other.m_impl, typename nestl::allocator_traits<allocator_type>::propagate_on_container_move_assignment());
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0


From adc64f55d350c30ee8832b8e0149665d6ce20e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 15/26] fix: set::crbegin and set::crend did not compile

---
 nestl/implementation/set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 115ac44..f31f0fc 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -245,7 +245,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -266,7 +266,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From 54f2849786311e7e5797b0a714b1db26154263f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 16/26] fix: shared_ptr move assignment released the old value
 before taking over the source

---
 nestl/implementation/shared_ptr.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..a9a9f4b 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -441,16 +441,18 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
-    m_ptr = other.m_ptr;
+    /// take over other before releasing old value, because other may be a part of old value
+    element_type* ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-    m_refcount = other.m_refcount;
+    shared_count_base* refcount = other.m_refcount;
     other.m_refcount = nullptr;
 
+    const shared_ptr tmp(std::move(*this));
+
+    m_ptr = ptr;
+    m_refcount = refcount;
+
     return *this;
 }
 
-- 
2.43.0


From 979a9d46b212cd0d341c91bffe84855dabbafb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 17/26] fix: make_shared_a_nothrow ignored the given allocator

---
 nestl/implementation/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index a9a9f4b..6570f81 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -503,12 +503,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
-- 
2.43.0


From 5d0e17f180fc06f4618b3833e8e1df845f90231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 18/26] fix: make_shared did not destroy the control block when
 initialization of the value failed

---
 nestl/implementation/shared_ptr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 6570f81..e83fb51 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -523,12 +523,16 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&
         return {nullptr};
     }
 
+    shared_count_t* ptrEnd = ptr + 1;
+    nestl::detail::destruction_scoped_guard<shared_count_t*> destructionGuard(ptr, ptrEnd);
+
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
         return {nullptr};
     }
 
+    destructionGuard.release();
     deallocationGuard.release();
     return shared_ptr<T>(ptr->get(), ptr);
 }
-- 
2.43.0


From 6329247d617598c053d0fe7e1de2fd1e7cf1954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 19/26] fix: weak_ptr::lock resurrected an expired object

---
 nestl/implementation/shared_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index e83fb51..6265d9a 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -332,7 +332,7 @@ public:
 
     shared_ptr<T> lock()
     {
-        return shared_ptr<T>(m_ptr, m_refcount);
+        return expired() ? shared_ptr<T>() : shared_ptr<T>(m_ptr, m_refcount);
     }
 
 private:
-- 
2.43.0


From 9c61f636f5828cc2d99aefebcb74ddcd27dcde5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 20/26] fix: weak_ptr self assignment used the control block
 after releasing it

---
 nestl/implementation/shared_ptr.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 6265d9a..e51b2d5 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -290,16 +290,19 @@ public:
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
-        if (m_refcount)
+        if (&other != this)
         {
-            m_refcount->weak_release();
-        }
+            if (m_refcount)
+            {
+                m_refcount->weak_release();
+            }
 
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
-        if (m_refcount)
-        {
-            m_refcount->weak_add_ref();
+            m_ptr = other.m_ptr;
+            m_refcount = other.m_refcount;
+            if (m_refcount)
+            {
+                m_refcount->weak_add_ref();
+            }
         }
 
         return *this;
-- 
2.43.0


From f532bfd8cdc4a5a6c03f4a910979a102e671d9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 21/26] fix: weak_ptr move assignment left the source referring
 to the control block

---
 nestl/implementation/shared_ptr.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index e51b2d5..1583ce3 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -313,7 +313,10 @@ public:
         const weak_ptr tmp(std::move(*this));
 
         m_ptr = other.m_ptr;
+        other.m_ptr = 0;
+
         m_refcount = other.m_refcount;
+        other.m_refcount = 0;
 
         return *this;
     }
-- 
2.43.0


From be96ed85d319e76c18ae3605059bb0c48baffa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 22/26] fix: control block was destroyed twice when the value
 held the last weak_ptr to itself

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 1583ce3..d61e32f 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            /// weak pointers stored inside of the value should not destroy control block during destruction of the value
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From baa9dd4711ad5b2714a9cc53955754a0f48081ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 23/26] fix: class_operations::assign rejected scalars in no
 exceptions mode

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++--
 nestl/no_exceptions/detail/class_operations.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index d64da3f..fe7b017 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -43,7 +43,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-        typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+        typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
         assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
@@ -51,7 +51,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<!std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& err, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         try
diff --git a/nestl/no_exceptions/detail/class_operations.hpp b/nestl/no_exceptions/detail/class_operations.hpp
index 5189649..b3165e7 100644
--- a/nestl/no_exceptions/detail/class_operations.hpp
+++ b/nestl/no_exceptions/detail/class_operations.hpp
@@ -27,7 +27,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
-- 
2.43.0


From 1c28216f096109c49fcb96f6a663bef045b0890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 24/26] fix: allocator::allocate did not detect size overflow

---
 nestl/allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
-- 
2.43.0


From a5e33cff43d42e18f6acc1a23d932c1b74c265c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:41 +0000
Subject: [PATCH 25/26] fix: copy_nothrow, swap and comparison of vector and
 list did not compile when exceptions are enabled

---
 nestl/has_exceptions/list.hpp   | 16 ++++++++++++++++
 nestl/has_exceptions/vector.hpp | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 4ba8469..75bb00d 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -102,6 +102,22 @@ public:
     using base_t::unique;
     using base_t::sort;
 
+    template <typename OperationError>
+    void copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::copy_nothrow(err, other);
+    }
+
+    void swap(list& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::swap(other);
+    }
+
+    friend bool operator == (const list& left, const list& right) NESTL_NOEXCEPT_SPEC
+    {
+        return static_cast<const base_t&>(left) == static_cast<const base_t&>(right);
+    }
+
     void push_back(const value_type& value)
     {
         default_operation_error err;
diff --git a/nestl/has_exceptions/vector.hpp b/nestl/has_exceptions/vector.hpp
index 8196090..50e7c03 100644
--- a/nestl/has_exceptions/vector.hpp
+++ b/nestl/has_exceptions/vector.hpp
@@ -89,6 +89,22 @@ public:
     using base_t::resize_nothrow;
     using base_t::swap;
 
+    template <typename OperationError>
+    void copy_nothrow(OperationError& err, const vector& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::copy_nothrow(err, other);
+    }
+
+    void swap(vector& other) NESTL_NOEXCEPT_SPEC
+    {
+        base_t::swap(other);
+    }
+
+    friend bool operator == (const vector& left, const vector& right) NESTL_NOEXCEPT_SPEC
+    {
+        return left.as_noexcept() == right.as_noexcept();
+    }
+
     void push_back(const value_type& value);
 
     void push_back(value_type&& value);
-- 
2.43.0


From b5e7222a188a15d7695ac8587e481b62ee8688ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:25 +0000
Subject: [PATCH 26/26] fix: list::copy_nothrow from itself read past the end
 of the list

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 0988a41..beab5c4 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -708,7 +708,10 @@ template <typename OperationError>
 void
 list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
 {
-    assign_nothrow(err, other.cbegin(), other.cend());
+    if (this != &other)
+    {
+        assign_nothrow(err, other.cbegin(), other.cend());
+    }
 }
 
 template <typename T, typename A>
-- 
2.43.0

