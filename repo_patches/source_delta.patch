From b57d492f5390e748b3784da73155d9164eba7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:19 +0000
Subject: [PATCH 1/5] fix: string_view::substr(pos, n) returned an oversized
 view when pos + n wrapped around

---
 include/gul14/string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 3f070a4..e204081 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -214,8 +214,8 @@ public:
     constexpr basic_string_view substr(size_type pos, size_type n=npos) const {
         if ( pos > size())
             throw std::out_of_range ( "string_view::substr" );
-        if (n == npos || pos + n > size())
-            n = size () - pos;
+        if (n > size() - pos)
+            n = size() - pos;
         return basic_string_view(data() + pos, n);
     }
 
-- 
2.43.0


From d777071eeb8000d00da18f6fa321ddce7891c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:19 +0000
Subject: [PATCH 2/5] fix: string_view::compare(pos, n, x) terminated instead
 of throwing for an out-of-range pos

---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index e204081..bb43514 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -225,7 +225,7 @@ public:
     }
 
     constexpr int compare(size_type pos1, size_type n1, basic_string_view x)
-    const noexcept {
+    const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From 09ec0ce4e8722c9fb3840d2ac34c9ef58dc21495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:15 +0000
Subject: [PATCH 3/5] fix: SmallVector::insert: reject sizes beyond max_size()
 instead of overflowing

---
 include/gul14/SmallVector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..0426045 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -1444,6 +1444,9 @@ private:
      */
     SizeType make_space_at_idx_for_n_elements(SizeType idx, SizeType num_elements)
     {
+        if (num_elements > max_size() - size_)
+            throw std::length_error("Max. capacity reached");
+
         const auto new_size = size_ + num_elements;
 
         if (new_size > capacity_)
-- 
2.43.0


From 12e1208acef078981db203dfa8475c35a0b1f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:31 +0000
Subject: [PATCH 4/5] fix: SmallVector: accept arguments that refer to the
 vector's own elements

---
 include/gul14/SmallVector.h | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 0426045..e452fdf 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -435,8 +435,9 @@ public:
      */
     void assign(SizeType num_elements, const ValueType& value)
     {
+        const ValueType v(value); // value may refer to an element of this vector
         clear();
-        fill_empty_vector_with_copied_value(num_elements, value);
+        fill_empty_vector_with_copied_value(num_elements, v);
     }
 
     /**
@@ -672,10 +673,17 @@ public:
     Reference emplace_back(ArgumentTypes&&... arguments)
     {
         if (size_ == capacity_)
+        {
+            // The arguments may refer to an element of this vector
+            ValueType v(std::forward<ArgumentTypes>(arguments)...);
             grow();
-
-        ::new(static_cast<void*>(data_end()))
-            ValueType(std::forward<ArgumentTypes>(arguments)...);
+            ::new(static_cast<void*>(data_end())) ValueType(std::move(v));
+        }
+        else
+        {
+            ::new(static_cast<void*>(data_end()))
+                ValueType(std::forward<ArgumentTypes>(arguments)...);
+        }
 
         ++size_;
 
@@ -813,14 +821,16 @@ public:
         if (num_elements < 1)
             return begin() + idx;
 
+        const ValueType v(value); // value may refer to an element of this vector
+
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
         // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        std::fill_n(insert_pos, num_assignable, v);
 
         // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
 
         size_ += num_elements;
 
@@ -1014,12 +1024,7 @@ public:
      */
     void push_back(const ValueType& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(value);
-
-        ++size_;
+        emplace_back(value);
     }
 
     /**
@@ -1141,8 +1146,9 @@ public:
         }
         else if (num_elements > size_)
         {
+            const ValueType v(element); // element may be stored in this vector
             reserve(num_elements);
-            copy_value_into_uninitialized_cells(size_, num_elements - size_, element);
+            copy_value_into_uninitialized_cells(size_, num_elements - size_, v);
         }
 
         size_ = num_elements;
@@ -1408,6 +1414,8 @@ private:
 
         const auto idx = static_cast<SizeType>(pos - begin());
 
+        ValueType v(std::forward<T>(value)); // value may refer to an element of this vector
+
         if (size_ == capacity_)
             grow();
 
@@ -1421,7 +1429,7 @@ private:
         std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
-        *insert_pos = std::forward<T>(value);
+        *insert_pos = std::move(v);
 
         return insert_pos;
     }
-- 
2.43.0


From c731670afa95545eb9eb5652aaebb2e90529a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:55 +0000
Subject: [PATCH 5/5] fix: SmallVector: do not leak elements or storage when an
 element operation throws

---
 include/gul14/SmallVector.h | 76 ++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 18 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index e452fdf..70763e9 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -323,13 +323,13 @@ public:
      * \param num_elements  The number of initial elements
      */
     explicit SmallVector(SizeType num_elements)
+        : SmallVector{}
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
         reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
+        fill_uninitialized_cells_with_default_constructed_elements(0u, num_elements);
         size_ = num_elements;
     }
 
@@ -341,6 +341,7 @@ public:
      * \param value         The value to be copied to the initial elements
      */
     SmallVector(SizeType num_elements, const ValueType& value)
+        : SmallVector{}
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -364,6 +365,7 @@ public:
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     SmallVector(InputIterator first, InputIterator last)
+        : SmallVector{}
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +380,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector{}
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -413,6 +416,7 @@ public:
      *          list exceeds max_size().
      */
     SmallVector(std::initializer_list<ValueType> init)
+        : SmallVector{}
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
@@ -826,11 +830,19 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, v);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::fill_n(insert_pos, num_assignable, v);
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
+            // Copy the remaining values into uninitialized cells
+            copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
+        }
+        catch (...)
+        {
+            destroy_range(data_end() + num_elements - num_assignable, data_end() + num_elements);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -868,11 +880,19 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::copy_n(first, num_assignable, insert_pos);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+            // Copy the remaining values into uninitialized cells
+            copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+        }
+        catch (...)
+        {
+            destroy_range(data_end() + num_elements - num_assignable, data_end() + num_elements);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1281,8 +1301,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto ptr = start_ptr;
+
+        try
+        {
+            for (; ptr != end_ptr; ++ptr)
+                ::new(static_cast<void*>(ptr)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, ptr);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
@@ -1425,10 +1455,10 @@ private:
 
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
-
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
+
         *insert_pos = std::move(v);
 
         return insert_pos;
@@ -1472,11 +1502,21 @@ private:
         // Move-initialize elements in uninitialized space at the back of the container
         const auto from_ptr = data_ptr + size_ - num_move_initialized;
         const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+        SizeType i = 0;
 
-        // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        try
+        {
+            for (; i != num_move_initialized; ++i)
+                ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+
+            // Move elements backwards within old vector size
+            std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        }
+        catch (...)
+        {
+            destroy_range(to_ptr, to_ptr + i);
+            throw;
+        }
 
         return num_move_initialized;
     }
-- 
2.43.0

