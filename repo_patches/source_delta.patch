From 4ee18fc91bbdac901395be017191ce7e554400de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 01/13] fix: release the whole buffer when filling it throws

circular_buffer(capacity, n, item) returned its storage to the allocator with
n instead of capacity when the copy constructor of an element threw.
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..d57991a 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From 22422021407c2afe50a74993be2af9952d051af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 02/13] fix: destroy the elements constructed by rinsert when
 it throws

rinsert(begin(), n, item) constructs into the free slots from the lowest one
up, so the elements already constructed are not adjacent to m_last (nor to
m_first) when a later construction throws. Counting them as elements at the
end made uninitialized slots part of the sequence and leaked the constructed
ones.
---
 include/boost/circular_buffer/base.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index d57991a..8048157 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2938,9 +2938,8 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (p = sub(m_first, construct); ii < construct; ++ii, increment(p))
+                    destroy_item(p);
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From 9d6461f41566ee92f09b4bc66b646c6aff4f19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 03/13] fix: do not leak when constructing from an input range
 throws

circular_buffer(capacity, first, last) with input iterators left the elements
constructed so far and the storage behind when an element operation threw.
---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 8048157..4c803b1 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From ca4d9406d8d80f34ebcc6a73d7d99ab7fa6c6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 04/13] fix: restore the strong guarantee of the adaptor's
 (r)set_capacity

circular_buffer_space_optimized::set_capacity and rset_capacity stored the new
capacity controller and removed elements before the reallocation that can
throw. Besides losing elements, a failed call could leave more memory allocated
than the new capacity, so that later insertions made size() exceed capacity().
---
 .../boost/circular_buffer/space_optimized.hpp | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..d062f49 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,18 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
+        const capacity_type old_ctrl = m_capacity_ctrl;
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
+        BOOST_TRY {
+            if (capacity_ctrl < size())
+                circular_buffer<T, Alloc>::set_capacity(capacity_ctrl);
+            else
+                adjust_min_capacity();
+        } BOOST_CATCH(...) {
+            m_capacity_ctrl = old_ctrl;
+            BOOST_RETHROW
         }
-        adjust_min_capacity();
+        BOOST_CATCH_END
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +300,18 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
+        const capacity_type old_ctrl = m_capacity_ctrl;
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
+        BOOST_TRY {
+            if (capacity_ctrl < size())
+                circular_buffer<T, Alloc>::rset_capacity(capacity_ctrl);
+            else
+                adjust_min_capacity();
+        } BOOST_CATCH(...) {
+            m_capacity_ctrl = old_ctrl;
+            BOOST_RETHROW
         }
-        adjust_min_capacity();
+        BOOST_CATCH_END
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
-- 
2.43.0


From 12391b7b49a470911f65171d2a26854464f05224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 05/13] fix: set the adaptor's capacity only after a successful
 assign

circular_buffer_space_optimized::assign(capacity_ctrl, first, last) stored the
new capacity before assigning, so size() could exceed capacity() when the
assignment threw.
---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index d062f49..146eb06 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -736,8 +736,8 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
-       m_capacity_ctrl = capacity_ctrl;
        circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       m_capacity_ctrl = capacity_ctrl;
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From 132bdb797e30d3e687de50d6b380bbc119d87d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 06/13] fix: overflow when the adaptor grows for a huge number
 of items

check_low_capacity computed size() + n and doubled the capacity without regard
to overflow: circular_buffer_space_optimized::insert(pos, n, item) did not
terminate for n above half of the range of size_type although only capacity()
items can be inserted.
---
 .../boost/circular_buffer/space_optimized.hpp    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 146eb06..f2921e6 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1542,10 +1542,16 @@ private:
             check_high_capacity();
     }
 
+    /*! INTERNAL ONLY */
+    size_type double_capacity(size_type n) const {
+        // never beyond the capacity (the doubled value could overflow)
+        return n > m_capacity_ctrl.capacity() / 2 ? m_capacity_ctrl.capacity() : n * 2;
+    }
+
     /*! INTERNAL ONLY */
     size_type ensure_reserve(size_type new_capacity, size_type buffer_size) const {
-        if (buffer_size + new_capacity / 5 >= new_capacity)
-            new_capacity *= 2; // ensure at least 20% reserve
+        if (buffer_size >= new_capacity - new_capacity / 5)
+            new_capacity = double_capacity(new_capacity); // ensure at least 20% reserve
         if (new_capacity > m_capacity_ctrl)
             return m_capacity_ctrl;
         return new_capacity;
@@ -1553,12 +1559,14 @@ private:
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        // items not fitting into the capacity need no memory (and size() + n could overflow)
+        size_type new_size = size() + (std::min)(n, reserve());
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
             if (new_capacity == 0)
                 new_capacity = 1;
-            for (; new_size > new_capacity; new_capacity *= 2) {}
+            while (new_size > new_capacity)
+                new_capacity = double_capacity(new_capacity);
             circular_buffer<T, Alloc>::set_capacity(
                 ensure_reserve(new_capacity, new_size));
         }
-- 
2.43.0


From 34c5c718cb95a23999b194965f95c0badedb09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 07/13] fix: inserting a single-pass range into the adaptor

circular_buffer_space_optimized::insert and rinsert called std::distance on
input iterators, which consumes a single-pass range before its first item is
inserted.
---
 .../boost/circular_buffer/space_optimized.hpp | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index f2921e6..d4fce76 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1651,6 +1651,26 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        insert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != begin()) {
+            for (;first != last; ++pos)
+                pos = insert(pos, *first++);
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1665,6 +1685,29 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        rinsert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != end()) {
+            for (;first != last; ++pos) {
+                pos = rinsert(pos, *first++);
+                if (pos == end())
+                    break;
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From 07b43feb873dc7b76951f30fc76ae964aaf14cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 08/13] fix: keep end() iterators valid when assigning a
 single-pass range

With debug support enabled assign(capacity, first, last) of an input
range invalidated all iterators, although iterators equal to end() are
documented to remain valid.
---
 include/boost/circular_buffer/base.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4c803b1..7a0e985 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1402,16 +1402,32 @@ public:
         \sa <code>swap(circular_buffer<T, Alloc>&, circular_buffer<T, Alloc>&)</code>
     */
     void swap(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
+        swap_members(cb);
+#if BOOST_CB_ENABLE_DEBUG
+        invalidate_all_iterators();
+        cb.invalidate_all_iterators();
+#endif
+    }
+
+protected:
+    /*! INTERNAL ONLY */
+    // Take over the content of a temporary buffer (iterators equal to end() remain valid).
+    void adopt(circular_buffer<T, Alloc>& temp) BOOST_NOEXCEPT {
+#if BOOST_CB_ENABLE_DEBUG
+        invalidate_iterators_except(end());
+#endif
+        swap_members(temp);
+    }
+
+private:
+    /*! INTERNAL ONLY */
+    void swap_members(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
         swap_allocator(cb, is_stateless<allocator_type>());
         adl_move_swap(m_buff, cb.m_buff);
         adl_move_swap(m_end, cb.m_end);
         adl_move_swap(m_first, cb.m_first);
         adl_move_swap(m_last, cb.m_last);
         adl_move_swap(m_size, cb.m_size);
-#if BOOST_CB_ENABLE_DEBUG
-        invalidate_all_iterators();
-        cb.invalidate_all_iterators();
-#endif
     }
 
 // push and pop
@@ -2710,7 +2726,7 @@ private:
             insert(begin(), first, last);
         } else {
             circular_buffer<value_type, allocator_type> tmp(new_capacity, first, last, alloc());
-            tmp.swap(*this);
+            adopt(tmp);
         }
     }
 
-- 
2.43.0


From 826363b56f497c6c1fb36d9e47782befa29042b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:57 +0000
Subject: [PATCH 09/13] fix: strong guarantee of the adaptor's copy assignment

When the source had as many elements as the target had memory, the
elements of the target were destroyed before the new ones were copied.
---
 include/boost/circular_buffer/space_optimized.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index d4fce76..4ac6fcf 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -575,7 +575,8 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        circular_buffer<T, Alloc> temp(cb.begin(), cb.end(), circular_buffer<T, Alloc>::get_allocator());
+        this->adopt(temp);
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From 15ed341962eccbe640e98645d995953a770d8340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:07 +0000
Subject: [PATCH 10/13] fix: inserting a copy of one of the buffer's own
 elements

---
 include/boost/circular_buffer/base.hpp        | 46 ++++++++++++++++++-
 .../boost/circular_buffer/space_optimized.hpp | 28 +++++++++++
 2 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 7a0e985..8c6829e 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -20,6 +20,7 @@
 
 #include <boost/config.hpp>
 #include <boost/concept_check.hpp>
+#include <boost/core/addressof.hpp>
 #include <boost/limits.hpp>
 #include <boost/core/allocator_access.hpp>
 #include <boost/core/empty_value.hpp>
@@ -33,6 +34,7 @@
 #include <boost/move/adl_move_swap.hpp>
 #include <boost/move/move.hpp>
 #include <algorithm>
+#include <functional>
 #include <iterator>
 #include <utility>
 #include <deque>
@@ -918,8 +920,15 @@ public:
     */
     void resize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > capacity())
+            if (new_size > capacity()) {
+                if (is_element(item)) {
+                    const value_type temp(item);
+                    set_capacity(new_size);
+                    insert(end(), new_size - size(), temp);
+                    return;
+                }
                 set_capacity(new_size);
+            }
             insert(end(), new_size - size(), item);
         } else {
             iterator e = end();
@@ -993,8 +1002,15 @@ public:
     */
     void rresize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > capacity())
+            if (new_size > capacity()) {
+                if (is_element(item)) {
+                    const value_type temp(item);
+                    set_capacity(new_size);
+                    rinsert(begin(), new_size - size(), temp);
+                    return;
+                }
                 set_capacity(new_size);
+            }
             rinsert(begin(), new_size - size(), item);
         } else {
             rerase(begin(), end() - new_size);
@@ -1419,6 +1435,14 @@ protected:
         swap_members(temp);
     }
 
+    /*! INTERNAL ONLY */
+    // Is the item stored in this buffer (so that a modification of the buffer could change or destroy it)?
+    bool is_element(param_value_type item) const {
+        const value_type* p = boost::addressof(item);
+        return m_buff != 0 && !std::less<const value_type*>()(p, boost::to_address(m_buff))
+            && std::less<const value_type*>()(p, boost::to_address(m_end));
+    }
+
 private:
     /*! INTERNAL ONLY */
     void swap_members(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
@@ -1686,6 +1710,10 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos, param_value_type item) {
+        if (is_element(item)) {
+            value_type temp(item);
+            return insert(pos, boost::move(temp));
+        }
         return insert_impl<param_value_type>(pos, item);
     }
 
@@ -1805,6 +1833,11 @@ public:
             return;
         if (n > copy)
             n = copy;
+        if (is_element(item)) {
+            const value_type temp(item);
+            insert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(temp));
+            return;
+        }
         insert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(item));
     }
 
@@ -1941,6 +1974,10 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos, param_value_type item) {
+        if (is_element(item)) {
+            value_type temp(item);
+            return rinsert(pos, boost::move(temp));
+        }
         return rinsert_impl<param_value_type>(pos, item);
     }
 
@@ -2050,6 +2087,11 @@ public:
     */
     void rinsert(iterator pos, size_type n, param_value_type item) {
         BOOST_CB_ASSERT(pos.is_valid(this)); // check for uninitialized or invalidated iterator
+        if (is_element(item)) {
+            const value_type temp(item);
+            rinsert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(temp));
+            return;
+        }
         rinsert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(item));
     }
 
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 4ac6fcf..c4c5177 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -790,6 +790,11 @@ public:
             <code>pop_front()</code>
     */
     void push_back(param_value_type item) {
+        if (this->is_element(item)) {
+            value_type temp(item);
+            push_back(boost::move(temp));
+            return;
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_back(item);
     }
@@ -864,6 +869,11 @@ public:
             <code>pop_front()</code>
     */
     void push_front(param_value_type item) {
+        if (this->is_element(item)) {
+            value_type temp(item);
+            push_front(boost::move(temp));
+            return;
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_front(item);
     }
@@ -996,6 +1006,10 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos, param_value_type item) {
+        if (this->is_element(item)) {
+            value_type temp(item);
+            return insert(pos, boost::move(temp));
+        }
         size_type index = pos - begin();
         check_low_capacity();
         return circular_buffer<T, Alloc>::insert(begin() + index, item);
@@ -1118,6 +1132,11 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     void insert(iterator pos, size_type n, param_value_type item) {
+        if (this->is_element(item)) {
+            const value_type temp(item);
+            insert(pos, n, temp);
+            return;
+        }
         size_type index = pos - begin();
         check_low_capacity(n);
         circular_buffer<T, Alloc>::insert(begin() + index, n, item);
@@ -1207,6 +1226,10 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos, param_value_type item) {
+        if (this->is_element(item)) {
+            value_type temp(item);
+            return rinsert(pos, boost::move(temp));
+        }
         size_type index = pos - begin();
         check_low_capacity();
         return circular_buffer<T, Alloc>::rinsert(begin() + index, item);
@@ -1329,6 +1352,11 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     void rinsert(iterator pos, size_type n, param_value_type item) {
+        if (this->is_element(item)) {
+            const value_type temp(item);
+            rinsert(pos, n, temp);
+            return;
+        }
         size_type index = pos - begin();
         check_low_capacity(n);
         circular_buffer<T, Alloc>::rinsert(begin() + index, n, item);
-- 
2.43.0


From 941c574667d1d9d086d389db747ba0e0b7cf17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 11/13] fix: report decrementing begin() of an empty buffer

With debug support enabled, --begin() of an empty buffer with storage
passed the check against begin(), because iterators into an empty
buffer are end() iterators.
---
 include/boost/circular_buffer/details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index d6d48f3..294d1e1 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -314,7 +314,7 @@ struct iterator
     //! Decrement operator (prefix).
     iterator& operator -- () {
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
-        BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
+        BOOST_CB_ASSERT(!m_buff->empty() && m_it != m_buff->m_first); // check for iterator pointing to begin()
         if (m_it == 0)
             m_it = m_buff->m_last;
         m_buff->decrement(m_it);
-- 
2.43.0


From a8c54e4435b3d7277214ca34668ceef9b3bd11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 12/13] fix: rotate a full buffer with class-type pointers

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 8c6829e..cc3493a 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -743,7 +743,7 @@ public:
         BOOST_CB_ASSERT(new_begin.is_valid(this)); // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(new_begin.m_it != 0);      // check for iterator pointing to end()
         if (full()) {
-            m_first = m_last = const_cast<pointer>(new_begin.m_it);
+            m_first = m_last = m_buff + (new_begin.m_it - m_buff);
         } else {
             difference_type m = end() - new_begin;
             difference_type n = new_begin - begin();
-- 
2.43.0


From 45773ab0bb5fa65578557458f84916c406060fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 13/13] fix: construct the adaptor from integral count and
 value

circular_buffer_space_optimized<int>(capacity, n, item) with int
arguments did not compile: iterator_traits<int> was used to decide
whether the capacity is reduced after initialisation.
---
 include/boost/circular_buffer/space_optimized.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index c4c5177..8ef48e8 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -520,8 +520,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_init_capacity(first, is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -1629,6 +1628,17 @@ private:
     /*! INTERNAL ONLY */
     void reduce_capacity(const false_type&) {}
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void reduce_init_capacity(const IntegralType&, const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_init_capacity(const Iterator&, const false_type&) {
+        reduce_capacity(
+            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+    }
+
     /*! INTERNAL ONLY */
     static size_type init_capacity(const capacity_type& capacity_ctrl, size_type n) {
         BOOST_CB_ASSERT(capacity_ctrl.capacity() >= n); // check for capacity lower than n
-- 
2.43.0

