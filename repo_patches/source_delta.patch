From 74584ddfc768d10bb17b869ac7c150dd64a2cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 01/16] fix: is_linearized() of an empty buffer is true
 wherever its positions are

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..f94027e 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -708,7 +708,7 @@ public:
              Constant (in the size of the <code>circular_buffer</code>).
         \sa <code>linearize()</code>, <code>array_one()</code>, <code>array_two()</code>
     */
-    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff; }
+    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff || empty(); }
 
     //! Rotate elements in the <code>circular_buffer</code>.
     /*!
-- 
2.43.0


From 6b28c31f2c8b5c922e21811f81e7aea3e286bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 02/16] fix: rinsert of several items at begin() left wrong
 slots in the buffer when a copy threw

---
 include/boost/circular_buffer/base.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index f94027e..7918c27 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2938,9 +2938,10 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (; ii < construct; ++ii) { // the constructed items are not adjacent to the content
+                    decrement(p);
+                    destroy_item(p);
+                }
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From c3837650ca7670c62abf926ba9e8ab9d513527ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 03/16] fix: constructor failing while filling released its
 storage with the wrong count

---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 7918c27..fc6260d 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From a5bbabec03e81c949602cc7ff0580e4afddf2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 04/16] fix: constructor from an input range leaked elements
 and storage when it threw

---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index fc6260d..53b5fed 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From 1153851b8b941c43e4d8719e2bbbaec5a9101c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 05/16] fix: space optimized buffer could not be constructed
 from a capacity and a pair of integers

---
 include/boost/circular_buffer/space_optimized.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..c2b47d1 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -508,8 +508,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity(first, is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -1572,6 +1571,17 @@ private:
 #endif
     }
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void reduce_capacity(const IntegralType&, const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_capacity(const Iterator&, const false_type&) {
+        reduce_capacity(
+            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+    }
+
     /*! INTERNAL ONLY */
     void reduce_capacity(const true_type&) {
         circular_buffer<T, Alloc>::set_capacity((std::max)(m_capacity_ctrl.min_capacity(), size()));
-- 
2.43.0


From 1ad16472c2d9271fae6eaad63dc99259d90d800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 06/16] fix: space optimized assign with a capacity and a range
 allocated the whole capacity and changed the capacity when it failed

---
 include/boost/circular_buffer/space_optimized.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index c2b47d1..5be802f 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -723,8 +723,10 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
+       circular_buffer<T, Alloc>::assign(
+           init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()), first, last);
        m_capacity_ctrl = capacity_ctrl;
-       circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       reduce_capacity(first, is_integral<InputIterator>());
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From 2a44f2b63d291dba417ebd9e0f90e14262d393f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 07/16] fix: space optimized copy assignment has to leave the
 buffer unchanged when it fails

---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 5be802f..6c9af72 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -562,7 +562,7 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        circular_buffer<T, Alloc>::operator = (cb);
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From ef7b9dea5cc43bced98fab10f124fbd95bf9faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 08/16] fix: space optimized insert and rinsert consumed
 single-pass ranges before inserting them

---
 .../boost/circular_buffer/space_optimized.hpp | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 6c9af72..cbadb21 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1643,6 +1643,21 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != begin()) {
+            for (;first != last; ++pos)
+                pos = insert(pos, *first++);
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1657,6 +1672,24 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(iterator pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        if (!full() || pos != end()) {
+            for (;first != last; ++pos) {
+                pos = rinsert(pos, *first++);
+                if (pos == end())
+                    break;
+            }
+        }
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From 44eee1e612288fbd7b57e1081e223950eafa688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 09/16] fix: space optimized set_capacity and rset_capacity
 have to leave the buffer unchanged when they fail

---
 .../boost/circular_buffer/space_optimized.hpp | 52 ++++++++++---------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index cbadb21..c3e3e5d 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,11 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::set_capacity(adjusted_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +293,11 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
+        circular_buffer<T, Alloc>::rset_capacity(adjusted_capacity(capacity_ctrl));
         m_capacity_ctrl = capacity_ctrl;
-        if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
-        }
-        adjust_min_capacity();
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -1524,19 +1522,19 @@ private:
 // Helper methods
 
     /*! INTERNAL ONLY */
-    void adjust_min_capacity() {
-        if (m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
-            circular_buffer<T, Alloc>::set_capacity(m_capacity_ctrl.min_capacity());
-        else
-            check_high_capacity();
+    size_type adjusted_capacity(const capacity_type& capacity_ctrl) const {
+        // If elements have to be removed this is exactly capacity_ctrl.capacity(), so the caller can set it at once.
+        if (capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
+            return capacity_ctrl.min_capacity();
+        return high_capacity(capacity_ctrl, (std::min)(capacity_ctrl.capacity(), size()));
     }
 
     /*! INTERNAL ONLY */
-    size_type ensure_reserve(size_type new_capacity, size_type buffer_size) const {
+    static size_type ensure_reserve(const capacity_type& capacity_ctrl, size_type new_capacity, size_type buffer_size) {
         if (buffer_size + new_capacity / 5 >= new_capacity)
             new_capacity *= 2; // ensure at least 20% reserve
-        if (new_capacity > m_capacity_ctrl)
-            return m_capacity_ctrl;
+        if (new_capacity > capacity_ctrl)
+            return capacity_ctrl;
         return new_capacity;
     }
 
@@ -1549,7 +1547,7 @@ private:
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
             circular_buffer<T, Alloc>::set_capacity(
-                ensure_reserve(new_capacity, new_size));
+                ensure_reserve(m_capacity_ctrl, new_capacity, new_size));
         }
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
@@ -1557,17 +1555,21 @@ private:
     }
 
     /*! INTERNAL ONLY */
-    void check_high_capacity() {
+    size_type high_capacity(const capacity_type& capacity_ctrl, size_type buffer_size) const {
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
-        while (new_capacity / 3 >= size()) { // (new_capacity / 3) -> avoid oscillations
+        while (new_capacity / 3 >= buffer_size) { // (new_capacity / 3) -> avoid oscillations
             new_capacity /= 2;
-            if (new_capacity <= m_capacity_ctrl.min_capacity()) {
-                new_capacity = m_capacity_ctrl.min_capacity();
+            if (new_capacity <= capacity_ctrl.min_capacity()) {
+                new_capacity = capacity_ctrl.min_capacity();
                 break;
             }
         }
-        circular_buffer<T, Alloc>::set_capacity(
-            ensure_reserve(new_capacity, size()));
+        return ensure_reserve(capacity_ctrl, new_capacity, buffer_size);
+    }
+
+    /*! INTERNAL ONLY */
+    void check_high_capacity() {
+        circular_buffer<T, Alloc>::set_capacity(high_capacity(m_capacity_ctrl, size()));
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
 #endif
-- 
2.43.0


From 50e160ba68ae2d511b355d228b1736f70dbbb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 10/16] fix: space optimized insert and rinsert of a huge
 number of items looped forever or lost elements

---
 include/boost/circular_buffer/space_optimized.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index c3e3e5d..93eef37 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1531,8 +1531,11 @@ private:
 
     /*! INTERNAL ONLY */
     static size_type ensure_reserve(const capacity_type& capacity_ctrl, size_type new_capacity, size_type buffer_size) {
-        if (buffer_size + new_capacity / 5 >= new_capacity)
+        if (buffer_size + new_capacity / 5 >= new_capacity) {
+            if (new_capacity > capacity_ctrl / 2)
+                return capacity_ctrl; // also avoids overflow
             new_capacity *= 2; // ensure at least 20% reserve
+        }
         if (new_capacity > capacity_ctrl)
             return capacity_ctrl;
         return new_capacity;
@@ -1540,9 +1543,11 @@ private:
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        size_type new_size = n < reserve() ? size() + n : m_capacity_ctrl.capacity(); // avoids overflow
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
+            if (new_size > max_size())
+                throw_exception(std::length_error("circular_buffer"));
             if (new_capacity == 0)
                 new_capacity = 1;
             for (; new_size > new_capacity; new_capacity *= 2) {}
-- 
2.43.0


From 1c0513adc35dadf6efd9994b7dbc431fd2376453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 11/16] fix: space optimized resize and rresize beyond
 max_size() changed the capacity before throwing

---
 include/boost/circular_buffer/space_optimized.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 93eef37..757fe01 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -259,8 +259,7 @@ public:
     */
     void resize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > m_capacity_ctrl)
-                m_capacity_ctrl = capacity_type(new_size, m_capacity_ctrl.min_capacity());
+            ensure_capacity(new_size);
             insert(end(), new_size - size(), item);
         } else {
             iterator e = end();
@@ -329,8 +328,7 @@ public:
     */
     void rresize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
-            if (new_size > m_capacity_ctrl)
-                m_capacity_ctrl = capacity_type(new_size, m_capacity_ctrl.min_capacity());
+            ensure_capacity(new_size);
             rinsert(begin(), new_size - size(), item);
         } else {
             rerase(begin(), end() - new_size);
@@ -1521,6 +1519,15 @@ public:
 private:
 // Helper methods
 
+    /*! INTERNAL ONLY */
+    void ensure_capacity(size_type new_capacity) {
+        if (new_capacity > m_capacity_ctrl) {
+            if (new_capacity > max_size())
+                throw_exception(std::length_error("circular_buffer"));
+            m_capacity_ctrl = capacity_type(new_capacity, m_capacity_ctrl.min_capacity());
+        }
+    }
+
     /*! INTERNAL ONLY */
     size_type adjusted_capacity(const capacity_type& capacity_ctrl) const {
         // If elements have to be removed this is exactly capacity_ctrl.capacity(), so the caller can set it at once.
-- 
2.43.0


From 2325b3087b71fcdd823a69102500f1a7bf5297d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:18 +0000
Subject: [PATCH 12/16] fix: space optimized push_back and push_front of an
 element of the buffer itself read it after its storage was released

---
 include/boost/circular_buffer/space_optimized.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 757fe01..690f75e 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -774,6 +774,12 @@ public:
             <code>pop_front()</code>
     */
     void push_back(param_value_type item) {
+        if (size() == circular_buffer<T, Alloc>::capacity() && !full()) {
+            value_type tmp(item); // the item may be an element of this buffer
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_back(boost::move(tmp));
+            return;
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_back(item);
     }
@@ -848,6 +854,12 @@ public:
             <code>pop_front()</code>
     */
     void push_front(param_value_type item) {
+        if (size() == circular_buffer<T, Alloc>::capacity() && !full()) {
+            value_type tmp(item); // the item may be an element of this buffer
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_front(boost::move(tmp));
+            return;
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_front(item);
     }
-- 
2.43.0


From 69b629290c3ec0de9405019889edc3a6669901de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:56 +0000
Subject: [PATCH 13/16] fix: default item forms of push_back, push_front,
 insert and rinsert stored an indeterminate value for scalar types

---
 include/boost/circular_buffer/base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 53b5fed..7d4314f 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1515,7 +1515,7 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_back() {
-        value_type temp;
+        value_type temp = value_type();
         push_back(boost::move(temp));
     }
 
@@ -1579,7 +1579,7 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_front() {
-        value_type temp;
+        value_type temp = value_type();
         push_front(boost::move(temp));
     }
 
@@ -1738,7 +1738,7 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos) {
-        value_type temp;
+        value_type temp = value_type();
         return insert(pos, boost::move(temp));
     }
 
@@ -1991,7 +1991,7 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos) {
-        value_type temp;
+        value_type temp = value_type();
         return rinsert(pos, boost::move(temp));
     }
 
-- 
2.43.0


From ad7c2d9e3deecc06858d97f31725f74be2d79a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:04 +0000
Subject: [PATCH 14/16] fix: debug support did not report arithmetic on
 uninitialized iterators

---
 include/boost/circular_buffer/details.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index d6d48f3..0a8daa8 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -289,6 +289,7 @@ struct iterator
     //! Difference operator.
     template <class Traits0>
     difference_type operator - (const iterator<Buff, Traits0>& it) const {
+        BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff));    // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(it.is_valid(m_buff)); // check for uninitialized or invalidated iterator
         return linearize_pointer(*this) - linearize_pointer(it);
@@ -313,6 +314,7 @@ struct iterator
 
     //! Decrement operator (prefix).
     iterator& operator -- () {
+        BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
         if (m_it == 0)
@@ -330,6 +332,7 @@ struct iterator
 
     //! Iterator addition.
     iterator& operator += (difference_type n) {
+        BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
             BOOST_CB_ASSERT(m_buff->end() - *this >= n); // check for too large n
@@ -347,6 +350,7 @@ struct iterator
 
     //! Iterator subtraction.
     iterator& operator -= (difference_type n) {
+        BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff)); // check for uninitialized or invalidated iterator
         if (n > 0) {
             BOOST_CB_ASSERT(*this - m_buff->begin() >= n); // check for too large n
@@ -384,6 +388,7 @@ struct iterator
     //! Less.
     template <class Traits0>
     bool operator < (const iterator<Buff, Traits0>& it) const {
+        BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff));    // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(it.is_valid(m_buff)); // check for uninitialized or invalidated iterator
         return linearize_pointer(*this) < linearize_pointer(it);
-- 
2.43.0


From 05ccbef1a37eb1e9da3de46b2a17eba2c8b14aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:28 +0000
Subject: [PATCH 15/16] fix: debug support reported end() iterators as invalid
 after assign from an input range

---
 include/boost/circular_buffer/base.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 7d4314f..fb56b1e 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2710,7 +2710,14 @@ private:
             insert(begin(), first, last);
         } else {
             circular_buffer<value_type, allocator_type> tmp(new_capacity, first, last, alloc());
-            tmp.swap(*this);
+            destroy(); // unlike swap() this does not invalidate iterators equal to end()
+            m_buff = tmp.m_buff;
+            m_end = tmp.m_end;
+            m_first = tmp.m_first;
+            m_last = tmp.m_last;
+            m_size = tmp.m_size;
+            tmp.m_buff = tmp.m_end = tmp.m_first = tmp.m_last = 0;
+            tmp.m_size = 0;
         }
     }
 
-- 
2.43.0


From 2624fd098d6d0a646ca509f4a8090960d09d68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 16/16] fix: detect decrement of the begin() iterator of an
 empty circular_buffer

With the debug support enabled the decrement operator checked only for an
iterator pointing to the first element. In an empty buffer begin() == end()
is represented by a null m_it, so decrementing it was not reported.
---
 include/boost/circular_buffer/details.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index 0a8daa8..ee8a64c 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -317,6 +317,7 @@ struct iterator
         BOOST_CB_ASSERT(m_buff != 0);      // check for uninitialized iterator
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
+        BOOST_CB_ASSERT(m_it != 0 || m_buff->m_size != 0); // check for begin() == end() (empty circular_buffer)
         if (m_it == 0)
             m_it = m_buff->m_last;
         m_buff->decrement(m_it);
-- 
2.43.0

