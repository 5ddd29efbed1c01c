From 38ff42bae27cad8f158a0669dd96ab18e9d337b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 01/95] fix: array_wrapper_impl no longer calls a member
 function before its base is initialised

---
 include/sparrow/layout/array_wrapper.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/layout/array_wrapper.hpp b/include/sparrow/layout/array_wrapper.hpp
index ccf8c69..8fd5dad 100644
--- a/include/sparrow/layout/array_wrapper.hpp
+++ b/include/sparrow/layout/array_wrapper.hpp
@@ -120,7 +120,7 @@ namespace sparrow
 
         using wrapper_ptr = array_wrapper::wrapper_ptr;
 
-        constexpr enum data_type get_data_type() const;
+        static constexpr enum data_type get_data_type();
 
         array_wrapper_impl(const array_wrapper_impl&);
         bool is_dictionary_impl() const override;
@@ -180,7 +180,7 @@ namespace sparrow
 
     template <class T>
     array_wrapper_impl<T>::array_wrapper_impl(T&& ar)
-        : array_wrapper(this->get_data_type())
+        : array_wrapper(get_data_type())
         , m_storage(value_ptr<T>(std::move(ar)))
         , p_array(std::get<value_ptr<T>>(m_storage).get())
     {
@@ -188,7 +188,7 @@ namespace sparrow
 
     template <class T>
     array_wrapper_impl<T>::array_wrapper_impl(T* ar)
-        : array_wrapper(this->get_data_type())
+        : array_wrapper(get_data_type())
         , m_storage(ar)
         , p_array(ar)
     {
@@ -196,7 +196,7 @@ namespace sparrow
 
     template <class T>
     array_wrapper_impl<T>::array_wrapper_impl(std::shared_ptr<T> ar)
-        : array_wrapper(this->get_data_type())
+        : array_wrapper(get_data_type())
         , m_storage(std::move(ar))
         , p_array(std::get<std::shared_ptr<T>>(m_storage).get())
     {
@@ -215,7 +215,7 @@ namespace sparrow
     }
 
     template <class T>
-    constexpr enum data_type array_wrapper_impl<T>::get_data_type() const
+    constexpr enum data_type array_wrapper_impl<T>::get_data_type()
     {
         return detail::get_data_type_from_array<T>::get();
     }
-- 
2.43.0


From 7b5916ffe1fe6210de39f76c000c32b980804084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 02/95] fix: list and list view arrays apply their offset in
 elements, not bytes

---
 include/sparrow/layout/list_layout/list_array.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index d1fda9f..4827362 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -562,9 +562,8 @@ namespace sparrow
     template <bool BIG>
     auto list_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     /***************************************
@@ -656,17 +655,15 @@ namespace sparrow
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_offsets() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[OFFSET_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
     template <bool BIG>
     auto list_view_array_impl<BIG>::make_list_sizes() -> offset_type*
     {
-        return reinterpret_cast<offset_type*>(
-              this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data() + this->get_arrow_proxy().offset()
-        );
+        return reinterpret_cast<offset_type*>(this->get_arrow_proxy().buffers()[SIZES_BUFFER_INDEX].data())
+               + this->get_arrow_proxy().offset();
     }
 
 #ifdef __GNUC__
-- 
2.43.0


From 4eb80ac632ffb8241a26f241dc5a31687145f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 03/95] fix: fixed_sized_list_array takes its offset into
 account

---
 include/sparrow/layout/list_layout/list_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index 4827362..c85507e 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -690,7 +690,7 @@ namespace sparrow
 
     inline auto fixed_sized_list_array::offset_range(size_type i) const -> std::pair<offset_type, offset_type>
     {
-        const auto offset = i * m_list_size;
+        const auto offset = (i + this->get_arrow_proxy().offset()) * m_list_size;
         return std::make_pair(offset, offset + m_list_size);
     }
 
-- 
2.43.0


From e8f71d4053dfbba739960311b4cd63e918f72943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 04/95] fix: struct_array takes its offset into account

---
 include/sparrow/layout/struct_layout/struct_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 97067e5..618d0d9 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -228,12 +228,12 @@ namespace sparrow
 
     inline auto struct_array::value(size_type i) -> inner_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::value(size_type i) const -> inner_const_reference
     {
-        return struct_value{m_children, i};
+        return struct_value{m_children, i + this->get_arrow_proxy().offset()};
     }
 
     inline auto struct_array::make_children() -> children_type
-- 
2.43.0


From 19bb3be77b877e3f4c6a72a6d1812de9a87a517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 05/95] fix: union arrays take their offset into account

---
 include/sparrow/layout/union_array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 0bd32b9..acf0a1c 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -325,7 +325,7 @@ namespace sparrow
     template <class DERIVED>
     auto union_array_crtp_base<DERIVED>::operator[](std::size_t i) const -> value_type
     {   
-        const auto type_id = static_cast<std::size_t>(p_type_ids[i]);
+        const auto type_id = static_cast<std::size_t>(p_type_ids[i + m_proxy.offset()]);
         const auto child_index = m_type_id_map[type_id];
         const auto offset = this->derived_cast().element_offset(i);
         return array_element(*m_children[child_index], static_cast<std::size_t>(offset));
@@ -502,7 +502,7 @@ namespace sparrow
 
     inline std::size_t dense_union_array::element_offset(std::size_t i) const
     {
-        return static_cast<std::size_t>(p_offsets[i]) + m_proxy.offset();
+        return static_cast<std::size_t>(p_offsets[i + m_proxy.offset()]);
     }
 
     /*************************************
-- 
2.43.0


From e3cce07ea5040102ab5f18524f8826357bd92931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 06/95] fix: run_end_encoded_array honours its offset and its
 end iterator no longer reads past the run ends

---
 .../run_end_encoded_array.hpp                 | 41 +++++++++++++++++--
 .../run_end_encoded_iterator.hpp              | 14 +++++--
 src/run_encoded_array.cpp                     | 15 +------
 3 files changed, 48 insertions(+), 22 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index 4f52832..ae71831 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <algorithm>
+
 #include "sparrow/config/config.hpp"
 #include "sparrow/layout/array_wrapper.hpp"
 #include "sparrow/array_factory.hpp"
@@ -98,6 +100,10 @@ namespace sparrow
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
         SPARROW_API std::uint64_t get_run_length(std::uint64_t run_index) const;
+        // index of the run covering the i-th element of this array
+        SPARROW_API std::uint64_t get_run_index(std::uint64_t i) const;
+        // number of elements left in the run covering the i-th element of this array, starting from i
+        SPARROW_API std::uint64_t get_runs_left(std::uint64_t i, std::uint64_t run_index) const;
 
         [[nodiscard]] arrow_proxy& get_arrow_proxy();
         [[nodiscard]] const arrow_proxy& get_arrow_proxy() const;
@@ -174,6 +180,33 @@ namespace sparrow
         return ret;
     }
     
+    inline auto run_end_encoded_array::get_run_index(std::uint64_t i) const -> std::uint64_t
+    {
+        return std::visit(
+            [i, this](auto&& acc_lengths_ptr) -> std::uint64_t
+            {
+                const auto it = std::upper_bound(
+                    acc_lengths_ptr,
+                    acc_lengths_ptr + m_encoded_length,
+                    i + m_proxy.offset()
+                );
+                return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
+            },
+            m_acc_lengths
+        );
+    }
+
+    inline auto run_end_encoded_array::get_runs_left(std::uint64_t i, std::uint64_t run_index) const -> std::uint64_t
+    {
+        return std::visit(
+            [i, run_index, this](auto&& acc_lengths_ptr) -> std::uint64_t
+            {
+                return static_cast<std::uint64_t>(acc_lengths_ptr[run_index]) - (i + m_proxy.offset());
+            },
+            m_acc_lengths
+        );
+    }
+
     inline arrow_proxy& run_end_encoded_array::get_arrow_proxy()
     {
         return m_proxy;
@@ -191,12 +224,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::begin() -> iterator
     {
-        return iterator(this, 0, 0);
+        return iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::end() -> iterator
     {
-        return iterator(this, size(), 0);
+        return iterator(this, size());
     }
 
     inline auto run_end_encoded_array::begin() const -> const_iterator
@@ -211,12 +244,12 @@ namespace sparrow
 
     inline auto run_end_encoded_array::cbegin() const -> const_iterator
     {
-        return const_iterator(this, 0, 0);
+        return const_iterator(this, 0);
     }
 
     inline auto run_end_encoded_array::cend() const -> const_iterator
     {
-        return const_iterator(this, size(), 0);
+        return const_iterator(this, size());
     }
 
     inline bool operator==(const run_end_encoded_array& lhs, const run_end_encoded_array& rhs)
diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
index 8faafb8..41b38c2 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_iterator.hpp
@@ -44,7 +44,7 @@ namespace sparrow
         using array_ptr_type = std::conditional_t<CONST, const run_end_encoded_array *, run_end_encoded_array*>;
     public:
         run_encoded_array_iterator() = default;
-        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index);
+        run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index);
     private:
 
         bool equal(const run_encoded_array_iterator& rhs) const;
@@ -60,14 +60,20 @@ namespace sparrow
     };
     
     template<bool CONST>
-    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index, std::uint64_t run_end_index)
+    run_encoded_array_iterator<CONST>::run_encoded_array_iterator(array_ptr_type array_ptr, std::uint64_t index)
         : 
         p_array(array_ptr),
         p_encoded_values_array(array_ptr->p_encoded_values_array.get()),
         m_index(index), 
-        m_run_end_index(run_end_index),
-        m_runs_left(array_ptr->get_run_length(index))
+        m_run_end_index(0),
+        m_runs_left(0)
     {
+        // an iterator past the last element covers no run
+        if(m_index < array_ptr->size())
+        {
+            m_run_end_index = array_ptr->get_run_index(m_index);
+            m_runs_left = array_ptr->get_runs_left(m_index, m_run_end_index);
+        }
     }
 
     template<bool CONST>
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index a5d5608..d3bdc7b 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -35,20 +35,7 @@ namespace sparrow
 
     auto run_end_encoded_array::operator[](std::uint64_t i) const -> array_traits::const_reference
     {
-        return visit(
-            [i, this](const auto& acc_lengths_ptr) -> array_traits::const_reference
-            {
-                const auto it = std::upper_bound(
-                    acc_lengths_ptr,
-                    acc_lengths_ptr + this->m_encoded_length,
-                    i
-                );
-                // std::lower_bound returns an iterator, so we need to convert it to an index
-                const auto index = static_cast<std::size_t>(std::distance(acc_lengths_ptr, it));
-                return array_element(*p_encoded_values_array, static_cast<std::size_t>(index));
-            },
-            m_acc_lengths
-        );
+        return array_element(*p_encoded_values_array, static_cast<std::size_t>(get_run_index(i)));
     }
 
     std::pair<std::int64_t, std::int64_t> run_end_encoded_array::extract_length_and_null_count(
-- 
2.43.0


From 9222843bde85e23ccf656e32b29284da180994a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 07/95] fix: building a run end encoded array without runs no
 longer reads before the run ends

---
 src/run_encoded_array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index d3bdc7b..bb80e90 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -56,6 +56,10 @@ namespace sparrow
                 if constexpr(usable_array<std::decay_t<decltype(acc_lengths_array)>>)
                 {   
                     auto acc_length_data = acc_lengths_array.data();
+                    // without any run the array is empty
+                    if(raw_size == 0){
+                        return;
+                    }
                     // get the length of the array (ie last element in the acc_lengths array)
                     length = acc_length_data[raw_size - 1];
 
-- 
2.43.0


From b016e95155e3a05b78071f991809fb9c8139650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 08/95] fix: accept arrays whose producer omitted an empty
 buffer

---
 src/arrow_interface/arrow_array.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index fa9e6b9..686a6d2 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -125,7 +125,12 @@ namespace sparrow
         auto make_buffer =  [&](auto index, auto size)
         {
             auto buffer_ptr = static_const_ptr_cast<uint8_t>(array.buffers[index]);
-            return buffer_view_type(buffer_ptr, size);
+            return buffer_ptr != nullptr ? buffer_view_type(buffer_ptr, static_cast<size_t>(size)) : buffer_view_type(nullptr, 0);
+        };
+        // producers may omit the offsets buffer of an array of length 0
+        auto last_offset = [&](auto offsets_ptr)
+        {
+            return offsets_ptr != nullptr ? static_cast<size_t>(offsets_ptr[size]) : size_t(0);
         };
 
         switch(format_to_data_type(schema.format))
@@ -153,7 +158,7 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::STRING:
             case data_type::BINARY:
-                return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, static_const_ptr_cast<int32_t>(array.buffers[1])[size])};
+                return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, last_offset(static_const_ptr_cast<int32_t>(array.buffers[1])))};
             case data_type::LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
             case data_type::LARGE_LIST:
-- 
2.43.0


From 8729a2d3819e36faeaedc989618d928136b89541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 09/95] fix: accept the signed run end types of the Arrow
 specification

---
 .../run_end_encoded_layout/run_end_encoded_array.hpp  | 11 +++++++++--
 src/run_encoded_array.cpp                             |  9 ++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index ae71831..ca777db 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -95,7 +95,10 @@ namespace sparrow
             array && encoded_values
         ) -> arrow_proxy;
 
-        using acc_length_ptr_variant_type = std::variant< const std::uint16_t*, const std::uint32_t*,const std::uint64_t*> ;
+        using acc_length_ptr_variant_type = std::variant<
+            const std::uint16_t*, const std::uint32_t*, const std::uint64_t*,
+            const std::int16_t*, const std::int32_t*, const std::int64_t*
+        >;
 
         SPARROW_API static std::pair<std::int64_t, std::int64_t> extract_length_and_null_count( const array&, const array&);
         SPARROW_API static acc_length_ptr_variant_type get_acc_lengths_ptr(const array_wrapper& ar);
@@ -188,7 +191,11 @@ namespace sparrow
                 const auto it = std::upper_bound(
                     acc_lengths_ptr,
                     acc_lengths_ptr + m_encoded_length,
-                    i + m_proxy.offset()
+                    i + m_proxy.offset(),
+                    [](std::uint64_t index, auto acc_length)
+                    {
+                        return index < static_cast<std::uint64_t>(acc_length);
+                    }
                 );
                 return static_cast<std::uint64_t>(std::distance(acc_lengths_ptr, it));
             },
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index bb80e90..b313827 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -11,7 +11,10 @@ namespace sparrow
              mpl::is_type_instance_of_v<T, primitive_array> && (
              std::same_as<typename T::inner_value_type, std::uint16_t> ||
              std::same_as<typename T::inner_value_type, std::uint32_t> ||
-             std::same_as<typename T::inner_value_type, std::uint64_t>);
+             std::same_as<typename T::inner_value_type, std::uint64_t> ||
+             std::same_as<typename T::inner_value_type, std::int16_t> ||
+             std::same_as<typename T::inner_value_type, std::int32_t> ||
+             std::same_as<typename T::inner_value_type, std::int64_t>);
     
     auto run_end_encoded_array::get_acc_lengths_ptr(const array_wrapper& ar) -> acc_length_ptr_variant_type
     {
@@ -61,7 +64,7 @@ namespace sparrow
                         return;
                     }
                     // get the length of the array (ie last element in the acc_lengths array)
-                    length = acc_length_data[raw_size - 1];
+                    length = static_cast<std::int64_t>(acc_length_data[raw_size - 1]);
 
                     if(raw_null_count == 0){
                         return;
@@ -73,7 +76,7 @@ namespace sparrow
                         {
                             // how often is this value repeated?
                             const auto run_length = i == 0 ? acc_length_data[i] : acc_length_data[i] - acc_length_data[i - 1];
-                            null_count += run_length;
+                            null_count += static_cast<std::int64_t>(run_length);
                             raw_null_count -= 1;
                             if(raw_null_count == 0){
                                 return;
-- 
2.43.0


From 847cdc45d9138c6d14f1cdb3e92478713abe6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 10/95] fix: the builder writes run ends in a type the Arrow
 specification allows

---
 include/sparrow/builder/builder.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index ff306fa..c029bc0 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -380,7 +380,8 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
         const auto input_size = range_size(t);
 
         std::vector<value_type> values{};
-        std::vector<std::size_t> acc_run_lengths{};
+        // the Arrow specification requires signed run ends
+        std::vector<std::int64_t> acc_run_lengths{};
 
         values.reserve(input_size);
         acc_run_lengths.reserve(input_size);
@@ -401,15 +402,15 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
             {
                 if(!eq(values.back(), v))
                 {
-                    acc_run_lengths.push_back(i);
+                    acc_run_lengths.push_back(static_cast<std::int64_t>(i));
                     values.push_back(v);
                 }
             }
             ++i;
         }
-        acc_run_lengths.push_back(i);
+        acc_run_lengths.push_back(static_cast<std::int64_t>(i));
     
-        auto run_length_typed_array = primitive_array<std::size_t>(acc_run_lengths);
+        auto run_length_typed_array = primitive_array<std::int64_t>(acc_run_lengths);
 
         // since we do not support dict[dict or dict[run_end
         // we can hard code the layout policy here
-- 
2.43.0


From eeecc27af820c6c04714b3ac877d7679f23b0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 11/95] fix: run end encoding an empty range builds an empty
 array

---
 include/sparrow/builder/builder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index c029bc0..cb1632e 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -408,7 +408,10 @@ struct builder<T, enforce_run_end_encoded_layout, OPTION_FLAGS>
             }
             ++i;
         }
-        acc_run_lengths.push_back(static_cast<std::int64_t>(i));
+        if(i > 0)
+        {
+            acc_run_lengths.push_back(static_cast<std::int64_t>(i));
+        }
     
         auto run_length_typed_array = primitive_array<std::int64_t>(acc_run_lengths);
 
-- 
2.43.0


From b5dd6e4ecd047d063c145474a1460b142f7e0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 12/95] fix: buffer::pop_back compiles

---
 include/sparrow/buffer/buffer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index a91b47b..764810a 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -910,8 +910,7 @@ namespace sparrow
     constexpr void buffer<T>::pop_back()
     {
         SPARROW_ASSERT_FALSE(empty());
-        destroy(get_allocator(), get_data().p_end - 1);
-        --get_data().p_end;
+        erase_at_end(get_data().p_end - 1);
     }
 
     template <class T>
-- 
2.43.0


From 31442591b5943774f701021e50e738264b18ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 13/95] fix: the allocator-extended move constructor of buffer
 compiles

---
 include/sparrow/buffer/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 764810a..ea08399 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -495,7 +495,7 @@ namespace sparrow
     {
         if (rhs.get_allocator() == get_allocator())
         {
-            get_data() = std::move(rhs.m_data);
+            get_data() = std::move(rhs.get_data());
         }
         else if (!rhs.empty())
         {
-- 
2.43.0


From 37232290dd35f44f28a72519a1729945ba79fe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 14/95] fix: moving from an any_allocator leaves it usable and
 equal, as allocator requirements demand

---
 include/sparrow/buffer/allocator.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index a0dc13a..e31609b 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -18,6 +18,7 @@
 #include <memory_resource>
 #include <type_traits>
 #include <typeindex>
+#include <utility>
 #include <variant>
 
 #include "sparrow/utils/variant_visitor.hpp"
@@ -70,7 +71,7 @@ namespace sparrow
 
         any_allocator();
         any_allocator(const any_allocator& rhs);
-        any_allocator(any_allocator&&) = default;
+        any_allocator(any_allocator&& rhs) noexcept;
 
         any_allocator& operator=(const any_allocator& rhs) = delete;
         any_allocator& operator=(any_allocator&& rhs) = delete;
@@ -135,8 +136,10 @@ namespace sparrow
             }
         };
 
+        // Moving from an allocator must leave it usable and equal to the new one: the
+        // moved-from any_allocator and the moved-to one share the type-erased allocator.
         using storage_type = std::
-            variant<std::allocator<T>, std::pmr::polymorphic_allocator<T>, std::unique_ptr<interface>>;
+            variant<std::allocator<T>, std::pmr::polymorphic_allocator<T>, std::shared_ptr<interface>>;
 
         template <class A>
         std::unique_ptr<interface> make_storage(A&& alloc) const
@@ -159,9 +162,9 @@ namespace sparrow
                     {
                         return {std::decay_t<decltype(arg)>(arg)};
                     },
-                    [](const std::unique_ptr<interface>& arg) -> storage_type
+                    [](const std::shared_ptr<interface>& arg) -> storage_type
                     {
-                        return {arg->clone()};
+                        return {std::shared_ptr<interface>(arg->clone())};
                     }
                 },
                 rhs
@@ -207,6 +210,12 @@ namespace sparrow
     {
     }
 
+    template <class T>
+    any_allocator<T>::any_allocator(any_allocator&& rhs) noexcept
+        : m_storage(std::as_const(rhs.m_storage))
+    {
+    }
+
     template <class T>
     [[nodiscard]] T* any_allocator<T>::allocate(std::size_t n)
     {
-- 
2.43.0


From 7df7fca7b716c8e121c78da6f0df91995e5d1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 15/95] fix: erasing an empty range from a buffer is a no-op

---
 include/sparrow/buffer/buffer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index ea08399..beedaf5 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -884,13 +884,16 @@ namespace sparrow
     template <class T>
     constexpr auto buffer<T>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(cbegin() <= first);
         SPARROW_ASSERT_TRUE(last <= cend());
         const difference_type offset = std::distance(cbegin(), first);
         const difference_type len = std::distance(first, last);
         pointer p = get_data().p_begin + offset;
-        erase_at_end(std::move(p + len, get_data().p_end, p));
+        if (len != 0)
+        {
+            erase_at_end(std::move(p + len, get_data().p_end, p));
+        }
         return iterator(p);
     }
 
-- 
2.43.0


From e26c9af098d1b7772768135b848a35566aa67033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 16/95] fix: buffer insertion keeps element lifetimes right and
 accepts references to its own elements

---
 include/sparrow/buffer/buffer.hpp | 59 +++++++++----------------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index beedaf5..b93aaf3 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -785,28 +785,16 @@ namespace sparrow
         const difference_type offset = std::distance(cbegin(), pos);
         if (count != 0)
         {
-            reserve_with_growth_factor( size() + count);
-            const iterator it = std::next(begin(), offset);
-            std::move_backward(it, end(), std::next(end(), static_cast<difference_type>(count)));
-            std::fill_n(it, count, value);
-            get_data().p_end += count;
+            // value may refer to an element of this buffer
+            const value_type copy(value);
+            const difference_type old_size = static_cast<difference_type>(size());
+            reserve_with_growth_factor(size() + count);
+            get_data().p_end = fill_initialize(get_data().p_end, count, copy, get_allocator());
+            std::rotate(std::next(begin(), offset), std::next(begin(), old_size), end());
         }
         return std::next(begin(), offset);
     }
 
-    template <typename T>
-    struct is_move_iterator : std::false_type
-    {
-    };
-
-    template <typename Iterator>
-    struct is_move_iterator<std::move_iterator<Iterator>> : std::true_type
-    {
-    };
-
-    template <typename T>
-    constexpr bool is_move_iterator_v = is_move_iterator<T>::value;
-
     template <class T>
     template <mpl::iterator_of_type<T> InputIt>
     constexpr auto buffer<T>::insert(const_iterator pos, InputIt first, InputIt last) -> iterator
@@ -815,20 +803,11 @@ namespace sparrow
         const difference_type num_elements = std::distance(first, last);
         const size_type new_size = size() + static_cast<size_type>(num_elements);
         const difference_type offset = std::distance(cbegin(), pos);
-        const size_type old_size = size();
+        const difference_type old_size = static_cast<difference_type>(size());
         reserve_with_growth_factor(new_size);
-        resize(new_size);
+        get_data().p_end = copy_initialize(first, last, get_data().p_end, get_allocator());
         const iterator new_pos = std::next(begin(), offset);
-        const iterator end_it = std::next(begin(), static_cast<difference_type>(old_size));
-        std::move_backward(new_pos, end_it, end());
-        if constexpr (is_move_iterator_v<InputIt>)
-        {
-            std::uninitialized_move(first, last, new_pos);
-        }
-        else
-        {
-            std::uninitialized_copy(first, last, new_pos);
-        }
+        std::rotate(new_pos, std::next(begin(), old_size), end());
         return new_pos;
     }
 
@@ -857,19 +836,13 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type offset = std::distance(cbegin(), pos);
+        // args may refer to an element of this buffer
+        value_type value(std::forward<Args>(args)...);
         reserve_with_growth_factor(size() + 1);
         pointer p = get_data().p_begin + offset;
-        if (p != get_data().p_end)
-        {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::move(*(get_data().p_end - 1)));
-            std::move_backward(p, get_data().p_end - 1, get_data().p_end);
-            alloc_traits::construct(get_allocator(), p, std::forward<Args>(args)...);
-        }
-        else
-        {
-            alloc_traits::construct(get_allocator(), get_data().p_end, std::forward<Args>(args)...);
-        }
+        alloc_traits::construct(get_allocator(), get_data().p_end, std::move(value));
         ++get_data().p_end;
+        std::rotate(p, get_data().p_end - 1, get_data().p_end);
         return iterator(p);
     }
 
@@ -931,11 +904,13 @@ namespace sparrow
     template <class T>
     constexpr void buffer<T>::resize(size_type new_size, const value_type& value)
     {
+        // value may refer to an element of this buffer
+        const value_type copy(value);
         resize_impl(
             new_size,
-            [this, &value](size_type nb_init)
+            [this, &copy](size_type nb_init)
             {
-                get_data().p_end = fill_initialize(get_data().p_end, nb_init, value, get_allocator());
+                get_data().p_end = fill_initialize(get_data().p_end, nb_init, copy, get_allocator());
             }
         );
     }
-- 
2.43.0


From c4c179ea3eca19e067e90b09f54a0a28c8a8700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 17/95] fix: buffer does not give back memory it never
 allocated

---
 include/sparrow/buffer/buffer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index b93aaf3..8dc73fb 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -390,7 +390,11 @@ namespace sparrow
     template <class T>
     constexpr void buffer_base<T>::deallocate(pointer p, size_type n)
     {
-        alloc_traits::deallocate(m_alloc, p, n);
+        // Only memory obtained from the allocator may be given back to it.
+        if (p != nullptr)
+        {
+            alloc_traits::deallocate(m_alloc, p, n);
+        }
     }
 
     template <class T>
-- 
2.43.0


From 5b7f89837497d7014f680708083237178b124993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 18/95] fix: any_allocator compares equal to one made from an
 equal lvalue allocator

---
 include/sparrow/buffer/allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/allocator.hpp b/include/sparrow/buffer/allocator.hpp
index e31609b..510f579 100644
--- a/include/sparrow/buffer/allocator.hpp
+++ b/include/sparrow/buffer/allocator.hpp
@@ -148,7 +148,7 @@ namespace sparrow
         }
 
         template <class A>
-            requires can_any_allocator_sbo<A, T>
+            requires can_any_allocator_sbo<std::remove_cvref_t<A>, T>
         A&& make_storage(A&& alloc) const
         {
             return std::forward<A>(alloc);
-- 
2.43.0


From b2c42ce29498d2f39b81a6b282fdaeb87fe3a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 19/95] fix: bitset iterators are right at block boundaries and
 over absent memory

---
 .../buffer/dynamic_bitset/bitset_iterator.hpp | 118 +++---------------
 .../dynamic_bitset/dynamic_bitset_base.hpp    |  19 ++-
 2 files changed, 21 insertions(+), 116 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
index 0547083..32f337f 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_iterator.hpp
@@ -51,12 +51,11 @@ namespace sparrow
         using reference = typename base_type::reference;
         using difference_type = typename base_type::difference_type;
 
-        using block_type = mpl::constify_t<typename B::block_type, is_const>;
         using bitset_type = mpl::constify_t<B, is_const>;
         using size_type = typename B::size_type;
 
         constexpr bitset_iterator() noexcept = default;
-        constexpr bitset_iterator(bitset_type* bitset, block_type* block, size_type index);
+        constexpr bitset_iterator(bitset_type* bitset, size_type index);
 
     private:
 
@@ -68,25 +67,19 @@ namespace sparrow
         constexpr bool equal(const self_type& rhs) const noexcept;
         constexpr bool less_than(const self_type& rhs) const noexcept;
 
-        constexpr bool is_first_bit_of_block(size_type index) const noexcept;
-        constexpr difference_type distance_to_begin() const;
-
         bitset_type* p_bitset = nullptr;
-        block_type* p_block = nullptr;
-        // m_index is block-local index.
-        // Invariant: m_index < bitset_type::s_bits_per_block
-        size_type m_index;
+        // Index of the bit in the bitset. The memory of the bitset may be absent,
+        // or extend past its last bit, so that a position cannot be a pointer to a block.
+        size_type m_index = 0u;
 
         friend class iterator_access;
     };
 
     template <class B, bool is_const>
-    constexpr bitset_iterator<B, is_const>::bitset_iterator(bitset_type* bitset, block_type* block, size_type index)
+    constexpr bitset_iterator<B, is_const>::bitset_iterator(bitset_type* bitset, size_type index)
         : p_bitset(bitset)
-        , p_block(block)
         , m_index(index)
     {
-        SPARROW_ASSERT_TRUE(m_index < bitset_type::s_bits_per_block);
     }
 
     template <class B, bool is_const>
@@ -94,15 +87,11 @@ namespace sparrow
     {
         if constexpr (is_const)
         {
-            if(p_bitset->data() == nullptr)
-            {
-                return true;
-            }
-            return (*p_block) & bitset_type::bit_mask(m_index);
+            return p_bitset->test(m_index);
         }
         else
         {
-            return bitset_reference<B>(*p_bitset, *p_block, bitset_type::bit_mask(m_index));
+            return (*p_bitset)[m_index];
         }
     }
 
@@ -110,117 +99,38 @@ namespace sparrow
     constexpr void bitset_iterator<B, is_const>::increment()
     {
         ++m_index;
-        // If we have reached next block
-        if (is_first_bit_of_block(m_index))
-        {
-            ++p_block;
-            m_index = 0u;
-        }
-        SPARROW_ASSERT_TRUE(m_index < bitset_type::s_bits_per_block);
     }
 
     template <class B, bool is_const>
     constexpr void bitset_iterator<B, is_const>::decrement()
     {
-        // decreasing moves to previous block
-        if (is_first_bit_of_block(m_index))
-        {
-            --p_block;
-            m_index = sizeof(block_type);
-        }
-        else
-        {
-            --m_index;
-        }
-        SPARROW_ASSERT_TRUE(m_index < bitset_type::s_bits_per_block);
+        SPARROW_ASSERT_TRUE(m_index > 0u);
+        --m_index;
     }
 
     template <class B, bool is_const>
     constexpr void bitset_iterator<B, is_const>::advance(difference_type n)
     {
-        if (n >= 0)
-        {
-            if (std::cmp_less(n, bitset_type::s_bits_per_block - m_index))
-            {
-                m_index += static_cast<size_type>(n);
-            }
-            else
-            {
-                const size_type to_next_block = bitset_type::s_bits_per_block - m_index;
-                n -= static_cast<difference_type>(to_next_block);
-                const size_type block_n = static_cast<size_type>(n) / bitset_type::s_bits_per_block;
-                p_block += block_n + 1;
-                n -= static_cast<difference_type>(block_n * bitset_type::s_bits_per_block);
-                m_index = static_cast<size_type>(n);
-            }
-        }
-        else
-        {
-            auto mn = static_cast<size_type>(-n);
-            if (m_index >= mn)
-            {
-                m_index -= mn;
-            }
-            else
-            {
-                const size_type block_n = mn / bitset_type::s_bits_per_block;
-                p_block -= block_n;
-                mn -= block_n * bitset_type::s_bits_per_block;
-                if (m_index >= mn)
-                {
-                    m_index -= mn;
-                }
-                else
-                {
-                    mn -= m_index;
-                    --p_block;
-                    m_index = bitset_type::s_bits_per_block - mn;
-                }
-            }
-        }
-        SPARROW_ASSERT_TRUE(m_index < bitset_type::s_bits_per_block);
+        SPARROW_ASSERT_TRUE(n >= 0 || std::cmp_greater_equal(m_index, -n));
+        m_index = static_cast<size_type>(static_cast<difference_type>(m_index) + n);
     }
 
     template <class B, bool is_const>
     constexpr auto
     bitset_iterator<B, is_const>::distance_to(const self_type& rhs) const noexcept -> difference_type
     {
-        if (p_block == rhs.p_block)
-        {
-            return static_cast<difference_type>(rhs.m_index - m_index);
-        }
-        else
-        {
-            const auto dist1 = distance_to_begin();
-            const auto dist2 = rhs.distance_to_begin();
-            return dist2 - dist1;
-        }
+        return static_cast<difference_type>(rhs.m_index) - static_cast<difference_type>(m_index);
     }
 
     template <class B, bool is_const>
     constexpr bool bitset_iterator<B, is_const>::equal(const self_type& rhs) const noexcept
     {
-        return p_block == rhs.p_block && m_index == rhs.m_index;
+        return m_index == rhs.m_index;
     }
 
     template <class B, bool is_const>
     constexpr bool bitset_iterator<B, is_const>::less_than(const self_type& rhs) const noexcept
     {
-        return (p_block < rhs.p_block) || (p_block == rhs.p_block && m_index < rhs.m_index);
-    }
-
-    template <class B, bool is_const>
-    constexpr bool bitset_iterator<B, is_const>::is_first_bit_of_block(size_type index) const noexcept
-    {
-        return index % bitset_type::s_bits_per_block == 0;
-    }
-
-    template <class B, bool is_const>
-    constexpr auto bitset_iterator<B, is_const>::distance_to_begin() const -> difference_type
-    {
-        const difference_type distance = p_block - p_bitset->begin().p_block;
-        SPARROW_ASSERT_TRUE(distance >= 0);
-        return static_cast<difference_type>(bitset_type::s_bits_per_block) * distance
-               + static_cast<difference_type>(m_index);
+        return m_index < rhs.m_index;
     }
 }
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 074b537..29255b9 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -269,15 +269,14 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::begin() -> iterator
     {
-        return iterator(this, data(), 0u);
+        return iterator(this, 0u);
     }
 
     template <typename B>
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::end() -> iterator
     {
-        block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return iterator(this, block, size() % s_bits_per_block);
+        return iterator(this, size());
     }
 
     template <typename B>
@@ -298,15 +297,14 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cbegin() const -> const_iterator
     {
-        return const_iterator(this, data(), 0u);
+        return const_iterator(this, 0u);
     }
 
     template <typename B>
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr auto dynamic_bitset_base<B>::cend() const -> const_iterator
     {
-        const block_type* block = buffer().size() ? data() + buffer().size() - 1 : data();
-        return const_iterator(this, block, size() % s_bits_per_block);
+        return const_iterator(this, size());
     }
 
     template <typename B>
@@ -569,8 +567,7 @@ namespace sparrow
             set(index + i, value);
         }
 
-        auto block = data() + block_index(index);
-        return iterator(this, block, bit_index(index));
+        return iterator(this, index);
     }
 
     template <typename B>
@@ -601,8 +598,7 @@ namespace sparrow
             set(index + i, *first++);
         }
 
-        auto block = data() + block_index(index);
-        return iterator(this, block, bit_index(index));
+        return iterator(this, index);
     }
 
     template <typename B>
@@ -654,8 +650,7 @@ namespace sparrow
 
         resize(size() - count);
 
-        auto block = data() + block_index(first_index);
-        return iterator(this, block, bit_index(first_index));
+        return iterator(this, first_index);
     }
 
     template <typename B>
-- 
2.43.0


From e47c5e321404716b24c1eb9ae6e839d5b0d6e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 20/95] fix: resizing and inserting into empty, absent or
 over-allocated bitsets

---
 .../dynamic_bitset/dynamic_bitset_base.hpp    | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 29255b9..914539c 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -479,7 +479,7 @@ namespace sparrow
         const size_type extra_bits = count_extra_bits();
         if (extra_bits != 0)
         {
-            buffer().back() &= block_type(~(~block_type(0) << extra_bits));
+            buffer().data()[block_index(size())] &= block_type(~(~block_type(0) << extra_bits));
         }
     }
 
@@ -501,22 +501,24 @@ namespace sparrow
         requires std::ranges::random_access_range<std::remove_pointer_t<B>>
     constexpr void dynamic_bitset_base<B>::resize(size_type n, value_type b)
     {
-        const size_type old_block_count = buffer().size();
-        const size_type new_block_count = compute_block_count(n);
-        const block_type value = b ? block_type(~block_type(0)) : block_type(0);
-
-        if (new_block_count != old_block_count)
-        {
-            buffer().resize(new_block_count, value);
-        }
-
-        if (b && n > m_size)
+        if (n > m_size)
         {
+            // Whatever lies past the last bit is not part of the bitset, and all the bits
+            // are set if the memory is absent.
+            const size_type old_block_count = compute_block_count(m_size);
+            buffer().resize(old_block_count, block_type(~block_type(0)));
             const size_type extra_bits = count_extra_bits();
             if (extra_bits > 0)
             {
-                buffer().data()[old_block_count - 1] |= static_cast<block_type>(value << extra_bits);
+                const block_type mask = static_cast<block_type>(~block_type(0) << extra_bits);
+                block_type& last = buffer().data()[old_block_count - 1];
+                last = b ? block_type(last | mask) : block_type(last & ~mask);
             }
+            buffer().resize(compute_block_count(n), b ? block_type(~block_type(0)) : block_type(0));
+        }
+        else if (data() != nullptr)
+        {
+            buffer().resize(compute_block_count(n));
         }
 
         m_size = n;
@@ -546,7 +548,6 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, size_type count, value_type value)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -557,9 +558,9 @@ namespace sparrow
 
         resize(new_size);
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
@@ -576,7 +577,6 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::insert(const_iterator pos, InputIt first, InputIt last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
@@ -588,9 +588,9 @@ namespace sparrow
 
         // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = old_size + count - 1; i >= index + count; --i)
+        for (size_type i = new_size; i > index + count; --i)
         {
-            set(i, test(i - count));
+            set(i - 1, test(i - 1 - count));
         }
 
         for (size_type i = 0; i < count; ++i)
@@ -624,7 +624,6 @@ namespace sparrow
     constexpr dynamic_bitset_base<B>::iterator
     dynamic_bitset_base<B>::erase(const_iterator first, const_iterator last)
     {
-        SPARROW_ASSERT_TRUE(data() != nullptr);
         SPARROW_ASSERT_TRUE(cbegin() <= first);
         SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(last <= cend());
@@ -637,6 +636,13 @@ namespace sparrow
             return end();
         }
 
+        if (data() == nullptr)
+        {
+            // All the bits are set
+            resize(size() - static_cast<size_type>(std::distance(first, last)));
+            return iterator(this, first_index);
+        }
+
         // TODO: The current implementation is not efficient. It can be improved.
 
         const auto last_index = static_cast<size_type>(std::distance(cbegin(), last));
-- 
2.43.0


From a2ccfeb164c9e06647692df5d6adbdc0caa99cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 21/95] fix: viewing a bitmap does not write to it

---
 .../buffer/dynamic_bitset/dynamic_bitset.hpp      |  3 +++
 .../buffer/dynamic_bitset/dynamic_bitset_base.hpp | 15 +++++----------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
index b1dcf20..87f4639 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
@@ -95,18 +95,21 @@ namespace sparrow
               value ? 0u : n
           )
     {
+        base_type::zero_unused_bits();
     }
 
     template <std::integral T>
     constexpr dynamic_bitset<T>::dynamic_bitset(block_type* p, size_type n)
         : base_type(storage_type(p, this->compute_block_count(n)), n)
     {
+        base_type::zero_unused_bits();
     }
 
     template <std::integral T>
     constexpr dynamic_bitset<T>::dynamic_bitset(block_type* p, size_type n, size_type null_count)
         : base_type(storage_type(p, this->compute_block_count(n)), n, null_count)
     {
+        base_type::zero_unused_bits();
     }
 
 
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 914539c..2e6045a 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -145,6 +145,10 @@ namespace sparrow
         constexpr void push_back(value_type value);
         constexpr void pop_back();
 
+        // The memory of a bitset that does not own it must not be written to
+        // until the user explicitly changes a bit.
+        constexpr void zero_unused_bits();
+
     private:
 
         static constexpr std::size_t s_bits_per_block = sizeof(block_type) * CHAR_BIT;
@@ -154,7 +158,6 @@ namespace sparrow
 
         size_type count_non_null() const noexcept;
         constexpr size_type count_extra_bits() const noexcept;
-        constexpr void zero_unused_bits();
         constexpr void update_null_count(bool old_value, bool new_value);
 
         storage_type m_buffer;
@@ -382,10 +385,6 @@ namespace sparrow
         , m_size(size)
         , m_null_count(m_size - count_non_null())
     {
-        if constexpr (!std::is_const_v<block_type>)
-        {
-            zero_unused_bits();
-        }
     }
 
     template <typename B>
@@ -395,11 +394,7 @@ namespace sparrow
         , m_size(size)
         , m_null_count(null_count)
     {
-        if constexpr (!std::is_const_v<block_type>)
-        {
-            zero_unused_bits();
-            SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
-        }
+        SPARROW_ASSERT_TRUE(m_null_count == m_size - count_non_null());
     }
 
     template <typename B>
-- 
2.43.0


From f1b3508f9633d5b7e8341a63c8d81fa8e359faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 22/95] fix: mutable access to a bitset whose memory is absent

---
 .../dynamic_bitset/bitset_reference.hpp       | 34 +++++++------------
 .../dynamic_bitset/dynamic_bitset_base.hpp    |  8 +++--
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index ef7585a..448eced 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -52,18 +52,19 @@ namespace sparrow
 
     private:
 
-        using block_type = typename B::block_type;
         using bitset_type = B;
+        using size_type = typename B::size_type;
 
-        bitset_reference(bitset_type& bitset, block_type& block, block_type mask);
+        bitset_reference(bitset_type& bitset, size_type index);
 
         constexpr void assign(bool) noexcept;
         constexpr void set() noexcept;
         constexpr void reset() noexcept;
 
+        // The memory of the bitset may be absent, in which case
+        // there is no block to refer to, and all the bits are set.
         bitset_type& m_bitset;
-        block_type& m_block;
-        block_type m_mask;
+        size_type m_index;
 
         friend class bitset_iterator<B, false>;
         template <typename RAR>
@@ -101,17 +102,13 @@ namespace sparrow
     template <class B>
     constexpr bitset_reference<B>::operator bool() const noexcept
     {
-        if(m_bitset.data() == nullptr)
-        {
-            return true;
-        }
-        return (m_block & m_mask) != 0;
+        return m_bitset.test(m_index);
     }
 
     template <class B>
     constexpr bool bitset_reference<B>::operator~() const noexcept
     {
-        return (m_block & m_mask) == 0;
+        return !m_bitset.test(m_index);
     }
 
     template <class B>
@@ -139,18 +136,15 @@ namespace sparrow
     {
         if (rhs)
         {
-            bool old_value = m_block & m_mask;
-            m_block ^= m_mask;
-            m_bitset.update_null_count(old_value, !old_value);
+            assign(!m_bitset.test(m_index));
         }
         return *this;
     }
 
     template <class B>
-    bitset_reference<B>::bitset_reference(bitset_type& bitset, block_type& block, block_type mask)
+    bitset_reference<B>::bitset_reference(bitset_type& bitset, size_type index)
         : m_bitset(bitset)
-        , m_block(block)
-        , m_mask(mask)
+        , m_index(index)
     {
     }
 
@@ -163,17 +157,13 @@ namespace sparrow
     template <class B>
     constexpr void bitset_reference<B>::set() noexcept
     {
-        bool old_value = m_block & m_mask;
-        m_block |= m_mask;
-        m_bitset.update_null_count(old_value, m_block & m_mask);
+        m_bitset.set(m_index, true);
     }
 
     template <class B>
     constexpr void bitset_reference<B>::reset() noexcept
     {
-        bool old_value = m_block & m_mask;
-        m_block &= ~m_mask;
-        m_bitset.update_null_count(old_value, m_block & m_mask);
+        m_bitset.set(m_index, false);
     }
 
     template <class B1, class B2>
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 2e6045a..4bcf0aa 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -195,8 +195,7 @@ namespace sparrow
     constexpr auto dynamic_bitset_base<B>::operator[](size_type pos) -> reference
     {
         SPARROW_ASSERT_TRUE(pos < size());
-        SPARROW_ASSERT_TRUE(data() != nullptr);
-        return reference(*this, buffer().data()[block_index(pos)], bit_mask(pos));
+        return reference(*this, pos);
     }
 
     template <typename B>
@@ -223,6 +222,11 @@ namespace sparrow
     constexpr void dynamic_bitset_base<B>::set(size_type pos, value_type value)
     {
         SPARROW_ASSERT_TRUE(pos < size());
+        if (data() == nullptr && value)
+        {
+            // All the bits are set already
+            return;
+        }
         SPARROW_ASSERT_TRUE(data() != nullptr);
         block_type& block = buffer().data()[block_index(pos)];
         const bool old_value = block & bit_mask(pos);
-- 
2.43.0


From 4a637d866d82feea7ce7af3e8d1aa8d0361e37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 23/95] fix: typed adaptors accept arguments that refer to
 their own elements

---
 include/sparrow/buffer/buffer_adaptor.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index d4d46a8..2ea10f1 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -460,8 +460,10 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        // value may refer to an element of the buffer
+        const value_type copy = value;
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        operator[](static_cast<size_type>(index)) = value;
+        operator[](static_cast<size_type>(index)) = copy;
         return std::next(begin(), index);
     }
 
@@ -475,10 +477,12 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        // value may refer to an element of the buffer
+        const value_type copy = value;
         m_buffer.insert(buffer_pos, count * m_to_from_size_ratio, 0);
         for (size_type i = 0; i < count; ++i)
         {
-            data()[static_cast<size_t>(index) + i] = value;
+            data()[static_cast<size_t>(index) + i] = copy;
         }
         return std::next(begin(), index);
     }
@@ -521,8 +525,10 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const difference_type index = std::distance(cbegin(), pos);
         const auto buffer_pos = get_buffer_reference_iterator(pos);
+        // The arguments may refer to elements of the buffer
+        value_type value(std::forward<Args>(args)...);
         m_buffer.insert(buffer_pos, m_to_from_size_ratio, 0);
-        data()[index] = value_type(std::forward<Args>(args)...);
+        data()[index] = std::move(value);
         return std::next(begin(), index);
     }
 
@@ -610,10 +616,12 @@ namespace sparrow
         const auto new_size_for_buffer = static_cast<size_type>(
             static_cast<double>(new_size) / m_from_to_size_ratio
         );
+        // value may refer to an element of the buffer
+        const value_type copy = value;
         m_buffer.resize(new_size_for_buffer, 0);
         for (size_type i = original_size; i < new_size; ++i)
         {
-            operator[](i) = value;
+            operator[](i) = copy;
         }
     }
 
-- 
2.43.0


From 4c4e25174f54e1f642fb3b9ec39b2b439871de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 24/95] fix: erasing the empty range at the end of a typed
 adaptor is a no-op

---
 include/sparrow/buffer/buffer_adaptor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index 2ea10f1..101a786 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -570,7 +570,7 @@ namespace sparrow
         const difference_type index_first = std::distance(cbegin(), first);
         const difference_type index_last = std::distance(cbegin(), last);
         const auto idx_for_buffer_first = index_for_buffer(static_cast<size_type>(index_first));
-        SPARROW_ASSERT_TRUE(idx_for_buffer_first < m_buffer.size());
+        SPARROW_ASSERT_TRUE(idx_for_buffer_first <= m_buffer.size());
         const auto idx_for_buffer_last = index_for_buffer(static_cast<size_type>(index_last));
         SPARROW_ASSERT_TRUE(idx_for_buffer_last <= m_buffer.size());
         m_buffer.erase(
-- 
2.43.0


From 76f2613805294766c06bd84e16731e8e8ac7d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 25/95] fix: sizes of typed adaptors are computed exactly

---
 include/sparrow/buffer/buffer_adaptor.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index 101a786..a4d8668 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -160,10 +160,8 @@ namespace sparrow
 
     private:
 
-        static constexpr double m_from_to_size_ratio = static_cast<double>(sizeof(buffer_reference_value_type))
-                                                       / static_cast<double>(sizeof(value_type));
-
-        static constexpr size_type m_to_from_size_ratio = static_cast<size_type>(1. / m_from_to_size_ratio);
+        // Computed with integers, the inverse of most sizes is not exact in floating point
+        static constexpr size_type m_to_from_size_ratio = sizeof(value_type) / sizeof(buffer_reference_value_type);
 
         [[nodiscard]] constexpr std::remove_cvref_t<buffer_reference>::size_type
         index_for_buffer(size_type idx) const noexcept
@@ -393,12 +391,11 @@ namespace sparrow
     constexpr buffer_adaptor<To, FromBufferRef>::size_type
     buffer_adaptor<To, FromBufferRef>::size() const noexcept
     {
-        const double new_size = static_cast<double>(m_buffer.size()) * m_from_to_size_ratio;
         SPARROW_ASSERT(
-            std::trunc(new_size) == new_size,
+            m_buffer.size() % m_to_from_size_ratio == 0,
             "The size of the buffer is not a multiple of the size of the new type"
         );
-        return static_cast<size_type>(new_size);
+        return m_buffer.size() / m_to_from_size_ratio;
     }
 
     template <typename To, BufferReference<To> FromBufferRef>
@@ -601,9 +598,7 @@ namespace sparrow
     constexpr void buffer_adaptor<To, FromBufferRef>::resize(size_type new_size)
         requires(not is_const)
     {
-        const auto new_size_for_buffer = static_cast<size_type>(
-            static_cast<double>(new_size) / m_from_to_size_ratio
-        );
+        const size_type new_size_for_buffer = index_for_buffer(new_size);
         m_buffer.resize(new_size_for_buffer);
     }
 
@@ -613,9 +608,7 @@ namespace sparrow
         requires(not is_const)
     {
         const size_type original_size = size();
-        const auto new_size_for_buffer = static_cast<size_type>(
-            static_cast<double>(new_size) / m_from_to_size_ratio
-        );
+        const size_type new_size_for_buffer = index_for_buffer(new_size);
         // value may refer to an element of the buffer
         const value_type copy = value;
         m_buffer.resize(new_size_for_buffer, 0);
-- 
2.43.0


From e1eae10c076a7aa4de7ee227371a3c813837b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 26/95] fix: inserting from a single-pass range reads it only
 once

---
 include/sparrow/buffer/buffer.hpp             | 32 ++++++++++----
 include/sparrow/buffer/buffer_adaptor.hpp     | 26 ++++++++---
 .../dynamic_bitset/dynamic_bitset_base.hpp    | 44 ++++++++++++-------
 include/sparrow/utils/mp_utils.hpp            | 11 +++++
 4 files changed, 83 insertions(+), 30 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 8dc73fb..3548340 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -21,6 +21,7 @@
 #include <ranges>
 #include <stdexcept>
 #include <type_traits>
+#include <vector>
 
 #include "sparrow/buffer/allocator.hpp"
 #include "sparrow/utils/contracts.hpp"
@@ -804,15 +805,28 @@ namespace sparrow
     constexpr auto buffer<T>::insert(const_iterator pos, InputIt first, InputIt last) -> iterator
     {
         SPARROW_ASSERT_TRUE(cbegin() <= pos && pos <= cend());
-        const difference_type num_elements = std::distance(first, last);
-        const size_type new_size = size() + static_cast<size_type>(num_elements);
-        const difference_type offset = std::distance(cbegin(), pos);
-        const difference_type old_size = static_cast<difference_type>(size());
-        reserve_with_growth_factor(new_size);
-        get_data().p_end = copy_initialize(first, last, get_data().p_end, get_allocator());
-        const iterator new_pos = std::next(begin(), offset);
-        std::rotate(new_pos, std::next(begin(), old_size), end());
-        return new_pos;
+        if constexpr (!mpl::multi_pass_iterator<InputIt>)
+        {
+            // The elements can only be read once
+            std::vector<value_type> values;
+            for (; first != last; ++first)
+            {
+                values.push_back(*first);
+            }
+            return insert(pos, std::make_move_iterator(values.begin()), std::make_move_iterator(values.end()));
+        }
+        else
+        {
+            const difference_type num_elements = std::distance(first, last);
+            const size_type new_size = size() + static_cast<size_type>(num_elements);
+            const difference_type offset = std::distance(cbegin(), pos);
+            const difference_type old_size = static_cast<difference_type>(size());
+            reserve_with_growth_factor(new_size);
+            get_data().p_end = copy_initialize(first, last, get_data().p_end, get_allocator());
+            const iterator new_pos = std::next(begin(), offset);
+            std::rotate(new_pos, std::next(begin(), old_size), end());
+            return new_pos;
+        }
     }
 
     template <class T>
diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index a4d8668..7c61054 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -17,6 +17,7 @@
 #include <cmath>
 #include <ranges>
 #include <type_traits>
+#include <vector>
 
 #include "sparrow/utils/contracts.hpp"
 #include "sparrow/utils/iterator.hpp"
@@ -494,12 +495,25 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
-        const difference_type index = std::distance(cbegin(), pos);
-        const difference_type count = std::distance(first, last);
-        const auto buffer_pos = get_buffer_reference_iterator(pos);
-        m_buffer.insert(buffer_pos, static_cast<size_type>(count) * m_to_from_size_ratio, 0);
-        std::copy(first, last, data() + index);
-        return std::next(begin(), index);
+        if constexpr (!mpl::multi_pass_iterator<InputIt>)
+        {
+            // The elements can only be read once
+            std::vector<value_type> values;
+            for (; first != last; ++first)
+            {
+                values.push_back(*first);
+            }
+            return insert(pos, std::make_move_iterator(values.begin()), std::make_move_iterator(values.end()));
+        }
+        else
+        {
+            const difference_type index = std::distance(cbegin(), pos);
+            const difference_type count = std::distance(first, last);
+            const auto buffer_pos = get_buffer_reference_iterator(pos);
+            m_buffer.insert(buffer_pos, static_cast<size_type>(count) * m_to_from_size_ratio, 0);
+            std::copy(first, last, data() + index);
+            return std::next(begin(), index);
+        }
     }
 
     template <typename To, BufferReference<To> FromBufferRef>
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 4bcf0aa..6a7b54d 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -18,6 +18,7 @@
 #include <stdexcept>
 #include <string>
 #include <type_traits>
+#include <vector>
 
 #include "sparrow/buffer/dynamic_bitset/bitset_iterator.hpp"
 #include "sparrow/buffer/dynamic_bitset/bitset_reference.hpp"
@@ -578,26 +579,39 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(cbegin() <= pos);
         SPARROW_ASSERT_TRUE(pos <= cend());
-        const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
-        const size_type old_size = size();
-        const size_type count = static_cast<size_type>(std::distance(first, last));
-        const size_type new_size = old_size + count;
+        if constexpr (!mpl::multi_pass_iterator<InputIt>)
+        {
+            // The elements can only be read once
+            std::vector<value_type> values;
+            for (; first != last; ++first)
+            {
+                values.push_back(*first);
+            }
+            return insert(pos, values.begin(), values.end());
+        }
+        else
+        {
+            const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
+            const size_type old_size = size();
+            const size_type count = static_cast<size_type>(std::distance(first, last));
+            const size_type new_size = old_size + count;
 
-        resize(new_size);
+            resize(new_size);
 
-        // TODO: The current implementation is not efficient. It can be improved.
+            // TODO: The current implementation is not efficient. It can be improved.
 
-        for (size_type i = new_size; i > index + count; --i)
-        {
-            set(i - 1, test(i - 1 - count));
-        }
+            for (size_type i = new_size; i > index + count; --i)
+            {
+                set(i - 1, test(i - 1 - count));
+            }
 
-        for (size_type i = 0; i < count; ++i)
-        {
-            set(index + i, *first++);
-        }
+            for (size_type i = 0; i < count; ++i)
+            {
+                set(index + i, *first++);
+            }
 
-        return iterator(this, index);
+            return iterator(this, index);
+        }
     }
 
     template <typename B>
diff --git a/include/sparrow/utils/mp_utils.hpp b/include/sparrow/utils/mp_utils.hpp
index 579e0f5..039f595 100644
--- a/include/sparrow/utils/mp_utils.hpp
+++ b/include/sparrow/utils/mp_utils.hpp
@@ -516,6 +516,17 @@ namespace sparrow::mpl
     
                                && std::same_as<typename std::iterator_traits<I>::value_type, T>;
 
+    /**
+     * Matches iterators over ranges that can be traversed several times. These are the forward
+     * iterators, and the adaptors (std::move_iterator) that only give up this property because
+     * reading an element may change it.
+     */
+    template <typename I>
+    concept multi_pass_iterator = std::forward_iterator<I>
+                                  || std::derived_from<
+                                      typename std::iterator_traits<I>::iterator_category,
+                                      std::forward_iterator_tag>;
+
 
     // todo...make smth better based on sizeof and is pod 
     template<class T>
-- 
2.43.0


From fadcbcc9ea879c40011aa49ab10e6db399dbd0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 27/95] fix: converting a nullable to a nullable of bool
 converts the value, not the flag

---
 include/sparrow/utils/nullable.hpp | 49 ++++++++++--------------------
 1 file changed, 16 insertions(+), 33 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index 2d90860..d204507 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -208,6 +208,16 @@ namespace sparrow
 
         template <class T>
         static constexpr bool is_nullable_v = mpl::is_type_instance_of_v<T, nullable>;
+
+        // bool is constructible from any nullable, but that gives the flag of this latter
+        // while converting a nullable must convert its value.
+        template <class T, class U>
+        concept bool_from_nullable = std::same_as<std::decay_t<T>, bool> and is_nullable_v<std::decay_t<U>>;
+
+        template <class T, class TO, class BO>
+        concept unwraps_nullable =
+            bool_from_nullable<T, nullable<TO, BO>> or
+            not initializable_from_refs<T, nullable<TO, BO>>;
     }
 
     /**
@@ -305,7 +315,8 @@ namespace sparrow
         template <class U>
         requires (
             not std::same_as<self_type, std::decay_t<U>> and
-            std::constructible_from<T, U&&>
+            std::constructible_from<T, U&&> and
+            not impl::bool_from_nullable<T, U>
         )
         explicit (not std::convertible_to<U&&, T>)
         constexpr nullable(U&& value) noexcept(noexcept(T(std::declval<U>())))
@@ -319,7 +330,7 @@ namespace sparrow
         template <class TO, mpl::boolean_like BO>
         requires (
             impl::both_constructible_from_cref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>>
+            impl::unwraps_nullable<T, TO, BO>
         )
         explicit(not impl::both_convertible_from_cref<T, TO, B, BO>)
         SPARROW_CONSTEXPR nullable(const nullable<TO, BO>& rhs)
@@ -328,26 +339,12 @@ namespace sparrow
         {
         }
 
-#ifdef __clang__
-        template <class TO, mpl::boolean_like BO>
-        requires (
-            impl::both_constructible_from_cref<T, TO, B, BO> and
-            std::same_as<std::decay_t<T>, bool>
-        )
-        explicit(not impl::both_convertible_from_cref<T, TO, B, BO>)
-        SPARROW_CONSTEXPR nullable(const nullable<TO, BO>& rhs)
-            : m_value(rhs.get())
-            , m_null_flag(rhs.null_flag())
-        {
-        }
-#endif
-
         constexpr nullable(self_type&&) noexcept = default;
 
         template <class TO, mpl::boolean_like BO>
         requires (
             impl::both_constructible_from_cond_ref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>>
+            impl::unwraps_nullable<T, TO, BO>
         )
         explicit(not impl::both_convertible_from_cond_ref<T, TO, B, BO>)
         SPARROW_CONSTEXPR nullable(nullable<TO, BO>&& rhs)
@@ -355,20 +352,6 @@ namespace sparrow
             , m_null_flag(std::move(rhs).null_flag())
         {
         }
-
-#ifdef __clang__
-        template <class TO, mpl::boolean_like BO>
-        requires (
-            impl::both_constructible_from_cond_ref<T, TO, B, BO> and
-            std::same_as<std::decay_t<T>, bool>
-        )
-        explicit(not impl::both_convertible_from_cond_ref<T, TO, B, BO>)
-        SPARROW_CONSTEXPR nullable(nullable<TO, BO>&& rhs)
-            : m_value(std::move(rhs).get())
-            , m_null_flag(std::move(rhs).null_flag())
-        {
-        }
-#endif
   
         constexpr nullable(value_type&& value, flag_type&& null_flag)
             : m_value(std::move(value))
@@ -422,7 +405,7 @@ namespace sparrow
         template <class TO, mpl::boolean_like BO>
         requires(
             impl::both_assignable_from_cref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>> and
+            impl::unwraps_nullable<T, TO, BO> and
             not impl::assignable_from_refs<T, nullable<TO, BO>>
         )
         constexpr self_type& operator=(const nullable<TO, BO>& rhs)
@@ -442,7 +425,7 @@ namespace sparrow
         template <class TO, mpl::boolean_like BO>
         requires(
             impl::both_assignable_from_cond_ref<T, TO, B, BO> and
-            not impl::initializable_from_refs<T, nullable<TO, BO>> and
+            impl::unwraps_nullable<T, TO, BO> and
             not impl::assignable_from_refs<T, nullable<TO, BO>>
         )
         constexpr self_type& operator=(nullable<TO, BO>&& rhs)
-- 
2.43.0


From 8abb3da6595b6494475bd1e1afe3ac8aabfa0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 28/95] fix: nullable orders consistently with nullval

---
 include/sparrow/utils/nullable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/utils/nullable.hpp b/include/sparrow/utils/nullable.hpp
index d204507..16b5c37 100644
--- a/include/sparrow/utils/nullable.hpp
+++ b/include/sparrow/utils/nullable.hpp
@@ -715,10 +715,10 @@ namespace sparrow
         return !lhs;
     }
 
-    template <class T, class B>
+    template <class T, mpl::boolean_like B>
     constexpr std::strong_ordering operator<=>(const nullable<T, B>& lhs, nullval_t) noexcept
     {
-        return lhs <=> false;
+        return bool(lhs) <=> false;
     }
     
     template <class T, class B, class U>
-- 
2.43.0


From 0ffa8998e8fcf500a4d5b86158daaebdb124b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:30 +0000
Subject: [PATCH 29/95] fix: swapping references to bits swaps the bits

---
 .../buffer/dynamic_bitset/bitset_reference.hpp       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
index 448eced..818b987 100644
--- a/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/bitset_reference.hpp
@@ -72,6 +72,10 @@ namespace sparrow
         friend class dynamic_bitset_base;
     };
 
+    // Swaps the bits that are referred to, like the swap of std::vector<bool>::reference.
+    template <class B>
+    constexpr void swap(bitset_reference<B>& lhs, bitset_reference<B>& rhs) noexcept;
+
     template <class B1, class B2>
     bool operator==(const bitset_reference<B1>& lhs, const bitset_reference<B2>& rhs);
 
@@ -166,6 +170,14 @@ namespace sparrow
         m_bitset.set(m_index, false);
     }
 
+    template <class B>
+    constexpr void swap(bitset_reference<B>& lhs, bitset_reference<B>& rhs) noexcept
+    {
+        const bool tmp = lhs;
+        lhs = bool(rhs);
+        rhs = tmp;
+    }
+
     template <class B1, class B2>
     bool operator==(const bitset_reference<B1>& lhs, const bitset_reference<B2>& rhs)
     {
-- 
2.43.0


From a974d6f3191ac759728376817d19c58f9468b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 30/95] fix: slices are relative to the offset of the array and
 count their own nulls

---
 include/sparrow/arrow_array_schema_proxy.hpp |  1 +
 src/arrow_array_schema_proxy.cpp             | 37 +++++++++++++++-----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 948293f..945b321 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -404,6 +404,7 @@ namespace sparrow
         void update_children();
         void update_dictionary();
         void update_null_count();
+        [[nodiscard]] int64_t compute_null_count() const;
         void reset();
 
         [[nodiscard]] bool array_created_with_sparrow() const;
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 3760662..6a51f35 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -678,14 +678,31 @@ namespace sparrow
 
     void arrow_proxy::update_null_count()
     {
-        if(has_bitmap(data_type()))
+        array().null_count = compute_null_count();
+    }
+
+    int64_t arrow_proxy::compute_null_count() const
+    {
+        const auto dt = data_type();
+        if (dt == sparrow::data_type::NA)
+        {
+            return array().length;
+        }
+        if (!has_bitmap(dt))
         {
-            const auto& validity_buffer = buffers().front();
-            const dynamic_bitset_view<const std::uint8_t> bitmap(validity_buffer.data(), length() + offset());
-            const auto null_count = bitmap.null_count();
-            set_null_count(static_cast<int64_t>(null_count));
+            return array().null_count;
         }
-        
+        const auto& validity_buffer = buffers().front();
+        if (validity_buffer.data() == nullptr)
+        {
+            return 0;
+        }
+        // Only the elements of the array count, not those before its offset
+        const auto count_nulls = [&validity_buffer](size_t size)
+        {
+            return dynamic_bitset_view<const std::uint8_t>(validity_buffer.data(), size).null_count();
+        };
+        return static_cast<int64_t>(count_nulls(offset() + length()) - count_nulls(offset()));
     }
 
     bool arrow_proxy::is_arrow_array_valid() const
@@ -815,7 +832,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_TRUE(start <= end);
         arrow_proxy copy = *this;
-        copy.set_offset(start);
+        copy.set_offset(offset() + start);
         copy.set_length(end - start);
         return copy;
     }
@@ -826,9 +843,11 @@ namespace sparrow
         ArrowSchema as = schema();
         as.release = empty_release_arrow_schema;
         ArrowArray ar = array();
-        ar.offset = static_cast<int64_t>(start);
+        ar.offset += static_cast<int64_t>(start);
         ar.length = static_cast<int64_t>(end - start);
         ar.release = empty_release_arrow_array;
-        return arrow_proxy{std::move(ar), std::move(as)};
+        arrow_proxy res{std::move(ar), std::move(as)};
+        res.array().null_count = res.compute_null_count();
+        return res;
     }
 }
-- 
2.43.0


From 0747c6a39f4db5e8e1d35c9bef590739d23a74ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 31/95] fix: replacing a buffer recounts the nulls of the new
 buffer

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 6a51f35..b6801e9 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -500,8 +500,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, buffer);
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     void arrow_proxy::set_buffer(size_t index, buffer<uint8_t>&& buffer)
@@ -512,8 +512,8 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot set buffer on non-sparrow created ArrowArray");
         }
         get_array_private_data()->set_buffer(index, std::move(buffer));
-        update_null_count();
         update_buffers();
+        update_null_count();
     }
 
     [[nodiscard]] const std::vector<arrow_proxy>& arrow_proxy::children() const
-- 
2.43.0


From d111282e894cac278e26e81ca761d020e3f26d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 32/95] fix: inserting in and erasing from the bitmap of an
 array with an offset

---
 include/sparrow/arrow_array_schema_proxy.hpp | 13 +++++++++++--
 src/arrow_array_schema_proxy.cpp             |  7 ++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 945b321..0871006 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -477,9 +477,18 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot modify the bitmap on non-sparrow created ArrowArray");
         }
         SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
+        SPARROW_ASSERT_TRUE(index <= length())
+        const auto first = range.begin();
+        const auto last = range.end();
+        if (first == last)
+        {
+            return index;
+        }
         auto bitmap = get_non_owning_dynamic_bitset();
-        const auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), range.begin(), range.end());
-        return static_cast<size_t>(std::distance(bitmap.begin(), it));
+        const auto pos = sparrow::next(bitmap.cbegin(), index + offset());
+        const auto it = bitmap.insert(pos, first, last);
+        update_buffers();
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
 }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index b6801e9..63af288 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -779,9 +779,10 @@ namespace sparrow
             return index;
         }
         auto bitmap = get_non_owning_dynamic_bitset();
-        auto it = bitmap.insert(sparrow::next(bitmap.cbegin(), index), count, value);
+        const auto pos = sparrow::next(bitmap.cbegin(), index + offset());
+        const auto it = bitmap.insert(pos, count, value);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     size_t arrow_proxy::erase_bitmap(size_t index, size_t count)
@@ -799,7 +800,7 @@ namespace sparrow
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
         update_buffers();
-        return std::distance(bitmap.begin(), it);
+        return static_cast<size_t>(std::distance(bitmap.begin(), it)) - offset();
     }
 
     void arrow_proxy::push_back_bitmap(bool value)
-- 
2.43.0


From 3ba0909b302f3d671520c21927143f35f16017d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 33/95] fix: releasing a structure deallocates its dictionary
 and the children it owns

---
 .../arrow_array_schema_utils.hpp              | 36 ++++++++++++++-----
 src/arrow_array_schema_proxy.cpp              | 34 +++++++++++++-----
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index dd095af..0704252 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -28,8 +28,8 @@
 namespace sparrow
 {
     /*
-     * Class for tracking ownership of children of an `ArrowArray` or
-     * an `ArrowSchema` allocated by sparrow.
+     * Class for tracking ownership of the children and of the dictionary
+     * of an `ArrowArray` or an `ArrowSchema` allocated by sparrow.
      */
     class children_ownership
     {
@@ -39,6 +39,9 @@ namespace sparrow
         constexpr void set_child_ownership(std::size_t child, bool ownership);
         [[nodiscard]] constexpr bool has_child_ownership(std::size_t child) const;
 
+        constexpr void set_dictionary_ownership(bool ownership) noexcept;
+        [[nodiscard]] constexpr bool has_dictionary_ownership() const noexcept;
+
         constexpr void resize_children(std::size_t size);
 
     protected:
@@ -49,6 +52,7 @@ namespace sparrow
 
         using children_owner_list = std::vector<bool>;
         children_owner_list m_children = {};
+        bool m_owns_dictionary = true;
     };
 
     /**
@@ -168,6 +172,16 @@ namespace sparrow
         return m_children[child];
     }
 
+    constexpr void children_ownership::set_dictionary_ownership(bool ownership) noexcept
+    {
+        m_owns_dictionary = ownership;
+    }
+
+    [[nodiscard]] constexpr bool children_ownership::has_dictionary_ownership() const noexcept
+    {
+        return m_owns_dictionary;
+    }
+
     constexpr void children_ownership::resize_children(std::size_t size)
     {
         m_children.resize(size);
@@ -182,12 +196,19 @@ namespace sparrow
             return;
         }
         
+        const children_ownership* own = static_cast<const children_ownership*>(t.private_data);
+
         if (t.dictionary)
         {
             if (t.dictionary->release)
             {
                 t.dictionary->release(t.dictionary);
             }
+            if (own != nullptr && own->has_dictionary_ownership())
+            {
+                delete t.dictionary;
+            }
+            t.dictionary = nullptr;
         }
 
         if (t.children)
@@ -197,16 +218,15 @@ namespace sparrow
                 T* child = t.children[i];
                 if (child)
                 {
-                    if (child->release)
+                    SPARROW_ASSERT_TRUE(own != nullptr);
+                    if (own->has_child_ownership(static_cast<std::size_t>(i)))
                     {
-                        SPARROW_ASSERT_TRUE(t.private_data != nullptr);
-                        children_ownership* own = static_cast<children_ownership*>(t.private_data);
-                        if (own->has_child_ownership(static_cast<std::size_t>(i)))
+                        // The content of the child may have been moved out of it
+                        if (child->release)
                         {
                             child->release(child);
-                            delete child;
-                            child = nullptr;
                         }
+                        delete child;
                     }
                 }
             }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 63af288..e2a2766 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -582,6 +582,25 @@ namespace sparrow
         return m_dictionary;
     }
 
+    // Releases the structure a sparrow structure refers to, and deallocates it if
+    // it has been allocated by sparrow.
+    template <class T>
+    void release_owned(T* t, bool allocated_by_sparrow)
+    {
+        if (t == nullptr)
+        {
+            return;
+        }
+        if (t->release != nullptr)
+        {
+            t->release(t);
+        }
+        if (allocated_by_sparrow)
+        {
+            delete t;
+        }
+    }
+
     void arrow_proxy::set_dictionary(ArrowArray* array_dictionary, ArrowSchema* schema_dictionary)
     {
         if (!is_created_with_sparrow())
@@ -590,15 +609,14 @@ namespace sparrow
             );
         }
 
-        if (array().dictionary != nullptr)
-        {
-            array().dictionary->release(array().dictionary);
-        }
-        if (schema().dictionary != nullptr)
-        {
-            schema().dictionary->release(schema().dictionary);
-        }
+        arrow_array_private_data* array_private_data = get_array_private_data();
+        arrow_schema_private_data* schema_private_data = get_schema_private_data();
+        release_owned(array().dictionary, array_private_data->has_dictionary_ownership());
+        release_owned(schema().dictionary, schema_private_data->has_dictionary_ownership());
 
+        // The structures are released by this one, but they are not deallocated
+        array_private_data->set_dictionary_ownership(false);
+        schema_private_data->set_dictionary_ownership(false);
         array().dictionary = array_dictionary;
         schema().dictionary = schema_dictionary;
         update_dictionary();
-- 
2.43.0


From db98370d49256770d8359bb50a5f16f60dfcef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:45 +0000
Subject: [PATCH 34/95] fix: removed and replaced children are released and
 deallocated

---
 include/sparrow/arrow_array_schema_proxy.hpp |  1 +
 src/arrow_array_schema_proxy.cpp             | 79 +++++++++++---------
 2 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 0871006..7967518 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -398,6 +398,7 @@ namespace sparrow
 
         [[nodiscard]] bool empty() const;
         SPARROW_API void resize_children(size_t children_count);
+        void release_child(size_t index);
 
         [[nodiscard]] SPARROW_API non_owning_dynamic_bitset<uint8_t> get_non_owning_dynamic_bitset();
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index e2a2766..1520f53 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -421,28 +421,52 @@ namespace sparrow
         resize_children(n_children() - n);
     }
 
+    // Releases the structure a sparrow structure refers to, and deallocates it if
+    // it has been allocated by sparrow.
+    template <class T>
+    void release_owned(T* t, bool allocated_by_sparrow)
+    {
+        if (t == nullptr)
+        {
+            return;
+        }
+        if (t->release != nullptr)
+        {
+            t->release(t);
+        }
+        if (allocated_by_sparrow)
+        {
+            delete t;
+        }
+    }
+
+    void arrow_proxy::release_child(size_t index)
+    {
+        if (get_schema_private_data()->has_child_ownership(index))
+        {
+            release_owned(std::exchange(schema().children[index], nullptr), true);
+        }
+        if (get_array_private_data()->has_child_ownership(index))
+        {
+            release_owned(std::exchange(array().children[index], nullptr), true);
+        }
+    }
+
     void arrow_proxy::resize_children(size_t children_count)
     {
         SPARROW_ASSERT_TRUE(std::cmp_less(children_count, std::numeric_limits<int64_t>::max()));
 
         arrow_array_private_data* array_private_data = get_array_private_data();
         arrow_schema_private_data* schema_private_data = get_schema_private_data();
+        auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
+        auto new_schema_children = std::make_unique<ArrowSchema*[]>(children_count);
+
         // Release the remaining children if the new size is smaller than the current size
         for (size_t i = children_count; i < static_cast<size_t>(array().n_children); ++i)
         {
-            if (schema_private_data->has_child_ownership(i))
-            {
-                schema().children[i]->release(schema().children[i]);
-            }
-            if (array_private_data->has_child_ownership(i))
-            {
-                array().children[i]->release(array().children[i]);
-            }
+            release_child(i);
         }
 
-        auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
-        auto new_schema_children = std::make_unique<ArrowSchema*[]>(children_count);
-
         for (size_t i = 0; i < std::min(children_count, static_cast<size_t>(array().n_children)); ++i)
         {
             new_array_children[i] = array().children[i];
@@ -537,9 +561,11 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
+        arrow_proxy child(child_array, child_schema);
+        release_child(index);
         array().children[index] = child_array;
         schema().children[index] = child_schema;
-        m_children[index] = arrow_proxy(child_array, child_schema);
+        m_children[index] = std::move(child);
         get_array_private_data()->set_child_ownership(index, false);
         get_schema_private_data()->set_child_ownership(index, false);
     }
@@ -553,9 +579,13 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set child on non-sparrow created ArrowArray or ArrowSchema");
         }
-        array().children[index] = new ArrowArray(std::move(child_array));
-        schema().children[index] = new ArrowSchema(std::move(child_schema));
-        m_children[index] = arrow_proxy(array().children[index], schema().children[index]);
+        auto new_child_array = std::make_unique<ArrowArray>(std::move(child_array));
+        auto new_child_schema = std::make_unique<ArrowSchema>(std::move(child_schema));
+        arrow_proxy child(new_child_array.get(), new_child_schema.get());
+        release_child(index);
+        array().children[index] = new_child_array.release();
+        schema().children[index] = new_child_schema.release();
+        m_children[index] = std::move(child);
         get_array_private_data()->set_child_ownership(index, true);
         get_schema_private_data()->set_child_ownership(index, true);
     }
@@ -582,25 +612,6 @@ namespace sparrow
         return m_dictionary;
     }
 
-    // Releases the structure a sparrow structure refers to, and deallocates it if
-    // it has been allocated by sparrow.
-    template <class T>
-    void release_owned(T* t, bool allocated_by_sparrow)
-    {
-        if (t == nullptr)
-        {
-            return;
-        }
-        if (t->release != nullptr)
-        {
-            t->release(t);
-        }
-        if (allocated_by_sparrow)
-        {
-            delete t;
-        }
-    }
-
     void arrow_proxy::set_dictionary(ArrowArray* array_dictionary, ArrowSchema* schema_dictionary)
     {
         if (!is_created_with_sparrow())
-- 
2.43.0


From ffd91ce612ddfcb0cee1dea6c9eb220c894b9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:11 +0000
Subject: [PATCH 35/95] fix: adding a child by rvalue leaves the source
 structures released

---
 src/arrow_array_schema_proxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 1520f53..dade76e 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -588,6 +588,9 @@ namespace sparrow
         m_children[index] = std::move(child);
         get_array_private_data()->set_child_ownership(index, true);
         get_schema_private_data()->set_child_ownership(index, true);
+        // The structures have been moved, as those given to the constructor
+        child_array = {};
+        child_schema = {};
     }
 
     void arrow_proxy::add_child(ArrowArray* array, ArrowSchema* schema)
-- 
2.43.0


From 86dbe4927c00d5e449a5fd732ac68f079fb54ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 36/95] fix: extracting the structures of a half-owned array
 does not lose the owned one

---
 include/sparrow/array.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/array.hpp b/include/sparrow/array.hpp
index 1766e5c..b4f7890 100644
--- a/include/sparrow/array.hpp
+++ b/include/sparrow/array.hpp
@@ -14,6 +14,8 @@
 
 #pragma once
 
+#include <stdexcept>
+
 #include "sparrow/array_api.hpp"
 #include "sparrow/layout/dispatch.hpp"
 
@@ -91,6 +93,13 @@ namespace sparrow
     std::pair<ArrowArray, ArrowSchema> extract_arrow_structures(A&& a)
     {
         arrow_proxy& proxy = detail::array_access::get_arrow_proxy(a);
-        return std::make_pair(proxy.extract_array(), proxy.extract_schema());
+        if (!proxy.owns_array() || !proxy.owns_schema())
+        {
+            // Extracting the owned one only would lose it
+            throw std::runtime_error("cannot extract Arrow structures not owned by the structure");
+        }
+        ArrowArray array = proxy.extract_array();
+        ArrowSchema schema = proxy.extract_schema();
+        return std::make_pair(array, schema);
     }
 }
-- 
2.43.0


From f59730db2d0b3f4c5684799814161a323fc4425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 37/95] fix: the release callbacks of views mark the structure
 as released

---
 src/arrow_interface/arrow_array.cpp  | 1 +
 src/arrow_interface/arrow_schema.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 686a6d2..5e3f43d 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -38,6 +38,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_FALSE(array == nullptr);
         SPARROW_ASSERT_TRUE(array->release == std::addressof(empty_release_arrow_array));
+        array->release = nullptr;
     }
 
 
diff --git a/src/arrow_interface/arrow_schema.cpp b/src/arrow_interface/arrow_schema.cpp
index dcf587c..41efe49 100644
--- a/src/arrow_interface/arrow_schema.cpp
+++ b/src/arrow_interface/arrow_schema.cpp
@@ -38,6 +38,7 @@ namespace sparrow
     {
         SPARROW_ASSERT_FALSE(schema == nullptr);
         SPARROW_ASSERT_TRUE(schema->release == std::addressof(empty_release_arrow_schema));
+        schema->release = nullptr;
     }
 
     void copy_schema(const ArrowSchema& source, ArrowSchema& target)
-- 
2.43.0


From 0bda3ee10b389e8e2d18d87aafd9a5a99bfbf2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 38/95] fix: an interrupted copy of a schema releases what it
 copied

---
 src/arrow_interface/arrow_schema.cpp | 48 ++++++++++++++++------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/arrow_interface/arrow_schema.cpp b/src/arrow_interface/arrow_schema.cpp
index 41efe49..1e38352 100644
--- a/src/arrow_interface/arrow_schema.cpp
+++ b/src/arrow_interface/arrow_schema.cpp
@@ -44,36 +44,44 @@ namespace sparrow
     void copy_schema(const ArrowSchema& source, ArrowSchema& target)
     {
         SPARROW_ASSERT_TRUE(&source != &target);
-        target.flags = source.flags;
-        target.n_children = source.n_children;
-        if (source.n_children > 0)
-        {
-            target.children = new ArrowSchema*[static_cast<std::size_t>(source.n_children)];
-            for (int64_t i = 0; i < source.n_children; ++i)
-            {
-                SPARROW_ASSERT_TRUE(source.children[i] != nullptr);
-                target.children[i] = new ArrowSchema{};
-                copy_schema(*source.children[i], *target.children[i]);
-            }
-        }
-
-        if (source.dictionary != nullptr)
-        {
-            target.dictionary = new ArrowSchema{};
-            copy_schema(*source.dictionary, *target.dictionary);
-        }
-
         target.private_data = new arrow_schema_private_data(
             source.format,
             source.name,
             source.metadata,
-            static_cast<std::size_t>(target.n_children)
+            static_cast<std::size_t>(source.n_children)
         );
         auto* private_data = static_cast<arrow_schema_private_data*>(target.private_data);
         target.format = private_data->format_ptr();
         target.name = private_data->name_ptr();
         target.metadata = private_data->metadata_ptr();
+        target.flags = source.flags;
         target.release = release_arrow_schema;
+
+        try
+        {
+            if (source.n_children > 0)
+            {
+                target.children = new ArrowSchema*[static_cast<std::size_t>(source.n_children)]{};
+                target.n_children = source.n_children;
+                for (int64_t i = 0; i < source.n_children; ++i)
+                {
+                    SPARROW_ASSERT_TRUE(source.children[i] != nullptr);
+                    target.children[i] = new ArrowSchema{};
+                    copy_schema(*source.children[i], *target.children[i]);
+                }
+            }
+
+            if (source.dictionary != nullptr)
+            {
+                target.dictionary = new ArrowSchema{};
+                copy_schema(*source.dictionary, *target.dictionary);
+            }
+        }
+        catch (...)
+        {
+            target.release(&target);
+            throw;
+        }
     }
 
 }
-- 
2.43.0


From 02ed269cfadf8386ff1f12b4f9fdca1952e63a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 39/95] fix: copying an array provides the buffers its source
 omits and leaks nothing when interrupted

---
 src/arrow_interface/arrow_array.cpp | 86 +++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 5e3f43d..212b8ee 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -200,6 +200,28 @@ namespace sparrow
         return {};
     }
 
+    // Producers may omit the validity buffer of an array without nulls, and the offsets
+    // buffer of an array of length 0.
+    buffer<std::uint8_t>
+    make_omitted_buffer(std::size_t index, const ArrowArray& array, const ArrowSchema& schema)
+    {
+        const auto dt = format_to_data_type(schema.format);
+        const auto size = static_cast<std::size_t>(array.length + array.offset);
+        if (index == 0 && has_bitmap(dt))
+        {
+            return buffer<std::uint8_t>((size + 7) / 8, std::uint8_t(0xFF));
+        }
+        if (index == 1 && (dt == data_type::STRING || dt == data_type::BINARY || dt == data_type::LIST))
+        {
+            return buffer<std::uint8_t>((size + 1) * sizeof(std::int32_t), std::uint8_t(0));
+        }
+        if (index == 1 && dt == data_type::LARGE_LIST)
+        {
+            return buffer<std::uint8_t>((size + 1) * sizeof(std::int64_t), std::uint8_t(0));
+        }
+        return {};
+    }
+
     void copy_array(const ArrowArray& source_array, const ArrowSchema& source_schema, ArrowArray& target)
     {
         SPARROW_ASSERT_TRUE(&source_array != &target);
@@ -208,45 +230,61 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(source_array.n_children == source_schema.n_children);
         SPARROW_ASSERT_TRUE((source_array.dictionary == nullptr) == (source_schema.dictionary == nullptr));
 
-        target.n_children = source_array.n_children;
-        if (source_array.n_children > 0)
+        const auto buffers = get_arrow_array_buffers(source_array, source_schema);
+        SPARROW_ASSERT_TRUE(buffers.size() == static_cast<std::size_t>(source_array.n_buffers));
+        std::vector<buffer<std::uint8_t>> buffers_copy;
+        buffers_copy.reserve(buffers.size());
+        for (std::size_t i = 0; i < buffers.size(); ++i)
         {
-            target.children = new ArrowArray*[static_cast<std::size_t>(source_array.n_children)];
-            for (int64_t i = 0; i < source_array.n_children; ++i)
+            const auto& source_buffer = buffers[i];
+            if (source_buffer.data() == nullptr)
             {
-                SPARROW_ASSERT_TRUE(source_array.children[i] != nullptr);
-                target.children[i] = new ArrowArray{};
-                copy_array(*source_array.children[i], *source_schema.children[i], *target.children[i]);
+                // The mutable arrays require the buffers that may be omitted
+                buffers_copy.push_back(make_omitted_buffer(i, source_array, source_schema));
+            }
+            else
+            {
+                buffers_copy.emplace_back(source_buffer);
             }
-        }
-
-        if (source_array.dictionary != nullptr)
-        {
-            target.dictionary = new ArrowArray{};
-            copy_array(*source_array.dictionary, *source_schema.dictionary, *target.dictionary);
         }
 
         target.length = source_array.length;
         target.null_count = source_array.null_count;
         target.offset = source_array.offset;
         target.n_buffers = source_array.n_buffers;
-
-
-        std::vector<buffer<std::uint8_t>> buffers_copy;
-        buffers_copy.reserve(static_cast<std::size_t>(source_array.n_buffers));
-        const auto buffers = get_arrow_array_buffers(source_array, source_schema);
-        SPARROW_ASSERT_TRUE(buffers.size() == static_cast<std::size_t>(source_array.n_buffers));
-        for (const auto& buffer : buffers)
-        {
-            buffers_copy.emplace_back(buffer);
-        }
         target.private_data = new arrow_array_private_data(
             std::move(buffers_copy),
-            static_cast<std::size_t>(target.n_children)
+            static_cast<std::size_t>(source_array.n_children)
         );
         const auto private_data = static_cast<arrow_array_private_data*>(target.private_data);
         target.buffers = private_data->buffers_ptrs<void>();
         target.release = release_arrow_array;
+
+        try
+        {
+            if (source_array.n_children > 0)
+            {
+                target.children = new ArrowArray*[static_cast<std::size_t>(source_array.n_children)]{};
+                target.n_children = source_array.n_children;
+                for (int64_t i = 0; i < source_array.n_children; ++i)
+                {
+                    SPARROW_ASSERT_TRUE(source_array.children[i] != nullptr);
+                    target.children[i] = new ArrowArray{};
+                    copy_array(*source_array.children[i], *source_schema.children[i], *target.children[i]);
+                }
+            }
+
+            if (source_array.dictionary != nullptr)
+            {
+                target.dictionary = new ArrowArray{};
+                copy_array(*source_array.dictionary, *source_schema.dictionary, *target.dictionary);
+            }
+        }
+        catch (...)
+        {
+            target.release(&target);
+            throw;
+        }
     }
 
 
-- 
2.43.0


From bba303858b42add9bf7b9aaf18d33df659d842a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 40/95] fix: a proxy whose construction is interrupted releases
 what it owns

---
 src/arrow_array_schema_proxy.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index dade76e..adf5e36 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -102,9 +102,11 @@ namespace sparrow
         requires std::same_as<std::remove_pointer_t<std::remove_cvref_t<AA>>, ArrowArray>
                      && std::same_as<std::remove_pointer_t<std::remove_cvref_t<AS>>, ArrowSchema>
     arrow_proxy::arrow_proxy(AA&& array, AS&& schema, impl_tag)
-        : m_array(std::forward<AA>(array))
-        , m_schema(std::forward<AS>(schema))
+        : arrow_proxy()  // Ensures the structures are released if an exception is thrown below
     {
+        m_array = std::forward<AA>(array);
+        m_schema = std::forward<AS>(schema);
+
         if constexpr (std::is_rvalue_reference_v<AA&&>)
         {
             array = {};
@@ -145,6 +147,7 @@ namespace sparrow
     }
 
     arrow_proxy::arrow_proxy(const arrow_proxy& other)
+        : arrow_proxy()  // Ensures the copies are released if an exception is thrown below
     {
         if (!other.empty())
         {
@@ -155,11 +158,6 @@ namespace sparrow
             update_children();
             update_dictionary();
         }
-        else
-        {
-            m_array = nullptr;
-            m_schema = nullptr;
-        }
     }
 
     arrow_proxy& arrow_proxy::operator=(const arrow_proxy& other)
-- 
2.43.0


From fa9d44d81f059d4b5465986b53f37f46afe96347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:07 +0000
Subject: [PATCH 41/95] fix: building a record batch from lvalue ranges copies
 them

---
 include/sparrow/record_batch.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/record_batch.hpp b/include/sparrow/record_batch.hpp
index c6f3e75..d9f396c 100644
--- a/include/sparrow/record_batch.hpp
+++ b/include/sparrow/record_batch.hpp
@@ -157,8 +157,8 @@ namespace sparrow
         requires(std::convertible_to<std::ranges::range_value_t<NR>, std::string>
                  and std::same_as<std::ranges::range_value_t<CR>, array>)
     record_batch::record_batch(NR&& names, CR&& columns)
-        : m_name_list(to_vector<name_type>(std::move(names)))
-        , m_array_list(to_vector<array>(std::move(columns)))
+        : m_name_list(to_vector<name_type>(std::forward<NR>(names)))
+        , m_array_list(to_vector<array>(std::forward<CR>(columns)))
     {
         init_array_map();
         SPARROW_ASSERT_TRUE(check_consistency());
@@ -172,7 +172,15 @@ namespace sparrow
         {
             v.reserve(std::ranges::size(range));
         }
-        std::ranges::move(range, std::back_inserter(v));
+        // Elements that belong to the caller are copied
+        if constexpr (std::is_lvalue_reference_v<R> || std::ranges::view<std::remove_cvref_t<R>>)
+        {
+            std::ranges::copy(range, std::back_inserter(v));
+        }
+        else
+        {
+            std::ranges::move(range, std::back_inserter(v));
+        }
         return v;
     }
 }
-- 
2.43.0


From a73a1a4b5ae8e137b8323686c1703e175117a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 42/95] fix: the data buffer of a boolean array has one byte
 per value

---
 src/arrow_interface/arrow_array.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 212b8ee..28a345e 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -140,8 +140,7 @@ namespace sparrow
             case data_type::RUN_ENCODED:
             case data_type::MAP:
                 return {};
-            case data_type::BOOL:   
-                return {make_valid_buffer(), make_buffer(1, (size + 7) / 8)};
+            case data_type::BOOL:  // The values are stored as bytes
             case data_type::UINT8:
             case data_type::INT8:
                 return {make_valid_buffer(), make_buffer(1, size)};
-- 
2.43.0


From c75db34587deba8147d43243a35f4b76bed55925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 43/95] fix: add_child by rvalue leaves the source structures
 released

---
 src/arrow_array_schema_proxy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index adf5e36..832d460 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -601,6 +601,8 @@ namespace sparrow
     {
         using value_type = arrow_array_and_schema;
         add_children(std::ranges::single_view(value_type{std::move(array), std::move(schema)}));
+        array = {};
+        schema = {};
     }
 
     [[nodiscard]] const std::unique_ptr<arrow_proxy>& arrow_proxy::dictionary() const
-- 
2.43.0


From 04b60e1f386dcbf240a95c958055c1ccb768f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 44/95] fix: unions declare no null of their own

---
 include/sparrow/layout/union_array.hpp | 39 ++------------------------
 1 file changed, 2 insertions(+), 37 deletions(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index acf0a1c..f143505 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -441,24 +441,6 @@ namespace sparrow
         ArrowArray** child_arrays = new ArrowArray*[n_children];
         const auto size = element_type.size();
 
-        // inverse type mapping (type_id -> child_index)
-        auto type_id_to_child_index = type_id_map_from_child_to_type_id(child_index_to_type_id);
-
-        // count nulls (expensive!)
-        int64_t null_count = 0;
-        for(std::size_t i = 0; i < size; ++i)
-        {
-            // child_id from type_id
-            const auto type_id = static_cast<std::uint8_t>(element_type[i]);
-            const auto child_index = type_id_to_child_index[type_id];
-            const auto offset = static_cast<std::size_t>(offsets[i]);
-            // check if child is null
-            if (!children[child_index][offset].has_value())
-            {
-                ++null_count;
-            }
-        }
-
         for(std::size_t i=0; i<n_children; ++i)
         {
             auto & child = children[i];
@@ -486,7 +468,7 @@ namespace sparrow
 
         ArrowArray arr = make_arrow_array(
             static_cast<std::int64_t>(size), // length
-            static_cast<std::int64_t>(null_count),
+            0, // null_count: a union has no validity of its own
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
@@ -529,23 +511,6 @@ namespace sparrow
         ArrowArray** child_arrays = new ArrowArray*[n_children];
         const auto size = element_type.size();
 
-        // inverse type mapping (type_id -> child_index)
-        auto type_id_to_child_index = type_id_map_from_child_to_type_id(child_index_to_type_id);
-
-        // count nulls (expensive!)
-        int64_t null_count = 0;
-        for(std::size_t i = 0; i < size; ++i)
-        {
-            // child_id from type_id
-            const auto type_id = static_cast<std::uint8_t>(element_type[i]);
-            const auto child_index = type_id_to_child_index[type_id];
-            // check if child is null
-            if (!children[child_index][i].has_value())
-            {
-                ++null_count;
-            }
-        }
-
         for(std::size_t i=0; i<n_children; ++i)
         {
             auto & child = children[i];
@@ -572,7 +537,7 @@ namespace sparrow
 
         ArrowArray arr = make_arrow_array(
             static_cast<std::int64_t>(size), // length
-            static_cast<std::int64_t>(null_count),
+            0, // null_count: a union has no validity of its own
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
-- 
2.43.0


From 67221a0a3e4137999974669141959bdbba23f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:42 +0000
Subject: [PATCH 45/95] fix: a null key of a dictionary array reads as a null
 of the dictionary's own type

---
 .../layout/dictionary_encoded_array.hpp       | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index e14fd46..1a7b79d 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -152,8 +152,6 @@ namespace sparrow
         using keys_layout = primitive_array<IT>;
         using values_layout = cloning_ptr<array_wrapper>;
 
-        const inner_value_type& dummy_inner_value() const;
-        //inner_const_reference dummy_inner_const_reference() const;
         const_reference dummy_const_reference() const;
 
         static keys_layout create_keys_layout(arrow_proxy& proxy);
@@ -325,31 +323,20 @@ namespace sparrow
         return const_iterator(const_functor_type(this), size());
     }
 
-    template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_value() const -> const inner_value_type&
-    {
-        static const inner_value_type instance = array_default_element_value(*p_values_layout);
-        return instance;
-    }
-
-    /*template <std::integral IT>
-    auto dictionary_encoded_array<IT>::dummy_inner_const_reference() const -> inner_const_reference
-    {
-        static const inner_const_reference instance =
-            std::visit([](const auto& val) -> inner_const_reference { return val; }, dummy_inner_value());
-        return instance;
-    }*/
-
     template <std::integral IT>
     auto dictionary_encoded_array<IT>::dummy_const_reference() const -> const_reference
     {
-        static const const_reference instance =
-            std::visit([](const auto& val) -> const_reference {
-                using inner_ref = typename arrow_traits<std::decay_t<decltype(val)>>::const_reference;
-                return nullable<inner_ref>(inner_ref(val), false);
+        // The type of a null element is the one of the elements of this dictionary
+        return std::visit(
+            [](const auto& val) -> const_reference
+            {
+                using inner_value = std::decay_t<decltype(val)>;
+                using inner_ref = typename arrow_traits<inner_value>::const_reference;
+                static const inner_value instance{};
+                return nullable<inner_ref>(inner_ref(instance), false);
             },
-            dummy_inner_value());
-        return instance;
+            array_default_element_value(*p_values_layout)
+        );
     }
 
     template <std::integral IT>
-- 
2.43.0


From 8c2d96d4fa0b1eca9d39a3d18a84cb6143f9a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:08 +0000
Subject: [PATCH 46/95] fix: a null key of a dictionary of encoded values reads
 as a null of their type

---
 src/array_helper.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/array_helper.cpp b/src/array_helper.cpp
index ff7157a..9bf272d 100644
--- a/src/array_helper.cpp
+++ b/src/array_helper.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include "sparrow/array_factory.hpp"
 #include "sparrow/layout/array_helper.hpp"
 #include "sparrow/layout/dispatch.hpp"
 
@@ -36,6 +37,16 @@ namespace sparrow
     array_traits::inner_value_type array_default_element_value(const array_wrapper& ar)
     {
         using return_type = array_traits::inner_value_type;
+        // The elements of encoded arrays are the ones of the array they encode
+        const auto& proxy = ar.get_arrow_proxy();
+        if (proxy.dictionary())
+        {
+            return array_default_element_value(*array_factory(proxy.dictionary()->view()));
+        }
+        if (proxy.data_type() == data_type::RUN_ENCODED)
+        {
+            return array_default_element_value(*array_factory(proxy.children()[1].view()));
+        }
         return visit([](const auto& impl) -> return_type {
             using value_type = typename std::decay_t<decltype(impl)>::inner_value_type;
             return value_type();
-- 
2.43.0


From bae55d6d21d77d6ec91aa6dfd16f17e034a6ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 47/95] fix: erasing an empty range of elements is allowed

---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index d6359fa..f8faa53 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -333,7 +333,7 @@ namespace sparrow
     template <class D>
     auto mutable_array_base<D>::erase(const_iterator first, const_iterator last) -> iterator
     {
-        SPARROW_ASSERT_TRUE(first < last);
+        SPARROW_ASSERT_TRUE(first <= last);
         SPARROW_ASSERT_TRUE(this->cbegin() <= first)
         SPARROW_ASSERT_TRUE(last <= this->cend());
         const difference_type first_index = std::distance(this->cbegin(), first);
-- 
2.43.0


From 284b81095ed2181f832d28cbbc5be23ddf51a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 48/95] fix: growing an array with a null adds nulls

---
 include/sparrow/layout/array_bitmap_base.hpp  | 6 +++---
 include/sparrow/layout/mutable_array_base.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/layout/array_bitmap_base.hpp b/include/sparrow/layout/array_bitmap_base.hpp
index 3865477..75f0f7a 100644
--- a/include/sparrow/layout/array_bitmap_base.hpp
+++ b/include/sparrow/layout/array_bitmap_base.hpp
@@ -63,7 +63,7 @@ namespace sparrow
             requires is_mutable;
         const bitmap_type& get_bitmap() const;
 
-        void resize_bitmap(size_type new_length)
+        void resize_bitmap(size_type new_length, bool value = true)
             requires is_mutable;
 
         bitmap_iterator insert_bitmap(const_bitmap_iterator pos, bool value, size_type count)
@@ -161,12 +161,12 @@ namespace sparrow
     }
 
     template <class D, bool is_mutable>
-    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length)
+    void array_bitmap_base_impl<D, is_mutable>::resize_bitmap(size_type new_length, bool value)
         requires is_mutable
     {
         arrow_proxy& arrow_proxy = this->get_arrow_proxy();
         const size_t new_size = new_length + arrow_proxy.offset();
-        arrow_proxy.resize_bitmap(new_size);
+        arrow_proxy.resize_bitmap(new_size, value);
     }
 
     template <class D, bool is_mutable>
diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index f8faa53..254e702 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -254,7 +254,7 @@ namespace sparrow
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
         auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length);
+        derived.resize_bitmap(new_length, value.has_value());
         derived.resize_values(new_length, value.get());
         this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
         derived.update();
-- 
2.43.0


From 49b0c992b1d2414929b642c9a81a3127a9c15f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 49/95] fix: assigning a shorter string, or a part of the array
 itself, keeps the other elements

---
 .../variable_size_binary_array.hpp            | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 2e18f15..52a1fce 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -416,25 +416,38 @@ namespace sparrow
         const auto offset_beg = *offset(index);
         const auto offset_end = *offset(index + 1);
         const auto initial_value_length = offset_end - offset_beg;
-        const auto new_value_length = static_cast<OT>(std::ranges::size(rhs));
+        // rhs may refer to the data of this array, which is about to be moved
+        const std::vector<std::ranges::range_value_t<U>> new_value(std::ranges::begin(rhs), std::ranges::end(rhs));
+        const auto new_value_length = static_cast<OT>(new_value.size());
         const OT shift_byte_count = new_value_length - initial_value_length;
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
         if (shift_byte_count != 0)
         {
-            const auto shift_val_abs = static_cast<size_type>(std::abs(shift_byte_count));
-            const auto new_data_buffer_size = shift_byte_count < 0 ? data_buffer.size() - shift_val_abs
-                                                                   : data_buffer.size() + shift_val_abs;
-            data_buffer.resize(new_data_buffer_size);
-            // Move elements to make space for the new value
-            std::move_backward(
-                data_buffer.begin() + offset_end,
-                data_buffer.end() - shift_byte_count,
-                data_buffer.end()
-            );
+            const auto data_size = data_buffer.size();
+            if (shift_byte_count > 0)
+            {
+                // Move elements to make space for the new value
+                data_buffer.resize(data_size + static_cast<size_type>(shift_byte_count));
+                std::move_backward(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end() - shift_byte_count,
+                    data_buffer.end()
+                );
+            }
+            else
+            {
+                // Move elements before releasing the space at the end
+                std::move(
+                    data_buffer.begin() + offset_end,
+                    data_buffer.end(),
+                    data_buffer.begin() + offset_end + shift_byte_count
+                );
+                data_buffer.resize(data_size - static_cast<size_type>(-shift_byte_count));
+            }
             // Adjust offsets for subsequent elements
             std::for_each(
                 offset(index + 1),
-                offset(size() + 1),
+                offsets_end(),
                 [shift_byte_count](auto& offset)
                 {
                     offset += shift_byte_count;
@@ -442,7 +455,7 @@ namespace sparrow
             );
         }
         // Copy the new value into the buffer
-        std::copy(std::ranges::begin(rhs), std::ranges::end(rhs), data_buffer.begin() + offset_beg);
+        std::copy(new_value.cbegin(), new_value.cend(), data_buffer.begin() + offset_beg);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
@@ -476,13 +489,13 @@ namespace sparrow
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offsets_end() -> offset_iterator
     {
-        return offset(size() + 1);
+        return sparrow::next(offset(size()), 1);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::offsets_cend() const -> const_offset_iterator
     {
-        return offset(size() + 1);
+        return sparrow::next(offset(size()), 1);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
-- 
2.43.0


From f01db894a5aed6b8a4ee42821492bd151a721291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:21 +0000
Subject: [PATCH 50/95] fix: inserting strings writes the offsets of the
 inserted elements, whatever the offset of the array

---
 .../variable_size_binary_array.hpp            | 48 +++++++++----------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 52a1fce..e05596a 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -592,23 +592,24 @@ namespace sparrow
     {
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
         const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
+        const auto buffer_idx = idx + static_cast<size_t>(get_arrow_proxy().offset());
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
         const offset_type cumulative_size = value_size * static_cast<offset_type>(count);
+        offset_buffer_adaptor.insert(sparrow::next(offset_buffer_adaptor.cbegin(), buffer_idx), count, 0);
+        // Put the right values in the new offsets
+        for (size_t i = buffer_idx; i < buffer_idx + count; ++i)
+        {
+            offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + value_size;
+        }
         // Adjust offsets for subsequent elements
         std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), idx + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_idx + count),
             offset_buffer_adaptor.end(),
             [cumulative_size](auto& offset)
             {
                 offset += cumulative_size;
             }
         );
-        offset_buffer_adaptor.insert(sparrow::next(offset_buffer_adaptor.cbegin(), idx + 1), count, 0);
-        // Put the right values in the new offsets
-        for (size_t i = idx + 1; i < idx + 1 + count; ++i)
-        {
-            offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + value_size;
-        }
         return offsets_begin() + idx;
     }
 
@@ -655,7 +656,7 @@ namespace sparrow
                 return static_cast<offset_type>(value.size());
             }
         );
-        insert_offsets(offset(idx + 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
+        insert_offsets(sparrow::next(offset(idx), 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
         return sparrow::next(value_begin(), idx);
     }
 
@@ -672,33 +673,28 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(first_sizes <= last_sizes);
         auto& offset_buffer = get_arrow_proxy().get_array_private_data()->buffers()[OFFSET_BUFFER_INDEX];
         auto offset_buffer_adaptor = make_buffer_adaptor<OT>(offset_buffer);
-        const auto idx = std::distance(offsets_cbegin(), pos);
+        const auto idx = static_cast<size_t>(std::distance(offsets_cbegin(), pos));
+        const auto buffer_idx = idx + static_cast<size_t>(get_arrow_proxy().offset());
         const OT cumulative_sizes = std::reduce(first_sizes, last_sizes, OT(0));
-        const auto sizes_count = std::distance(first_sizes, last_sizes);
-        offset_buffer_adaptor.resize(offset_buffer_adaptor.size() + static_cast<size_t>(sizes_count));
-        // Move the offsets to make space for the new offsets
-        std::move_backward(
-            offset_buffer_adaptor.begin() + idx,
-            offset_buffer_adaptor.end() - sizes_count,
-            offset_buffer_adaptor.end()
-        );
+        const auto sizes_count = static_cast<size_t>(std::distance(first_sizes, last_sizes));
+        offset_buffer_adaptor.insert(sparrow::next(offset_buffer_adaptor.cbegin(), buffer_idx), sizes_count, 0);
+        // Put the right values in the new offsets
+        InputIt it = first_sizes;
+        for (size_t i = buffer_idx; i < buffer_idx + sizes_count; ++i)
+        {
+            offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + *it;
+            ++it;
+        }
         // Adjust offsets for subsequent elements
         std::for_each(
-            offset_buffer_adaptor.begin() + idx + sizes_count,
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_idx + sizes_count),
             offset_buffer_adaptor.end(),
             [cumulative_sizes](auto& offset)
             {
                 offset += cumulative_sizes;
             }
         );
-        // Put the right values in the new offsets
-        InputIt it = first_sizes;
-        for (size_t i = static_cast<size_t>(idx + 1); i < static_cast<size_t>(idx + sizes_count + 1); ++i)
-        {
-            offset_buffer_adaptor[i] = offset_buffer_adaptor[i - 1] + *it;
-            ++it;
-        }
-        return offset(static_cast<size_t>(idx));
+        return sparrow::next(offsets_begin(), idx);
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
-- 
2.43.0


From 14c3813e58d52c42421cda59a8053efe331bef39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:00 +0000
Subject: [PATCH 51/95] fix: erasing strings removes their offsets, whatever
 the offset of the array

---
 .../variable_size_binary_array.hpp                         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index e05596a..3e260b9 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -736,16 +736,17 @@ namespace sparrow
         const OT offset_start_value = *offset(index);
         const OT offset_end_value = *offset(index + count);
         const OT difference = offset_end_value - offset_start_value;
+        const size_t buffer_index = index + static_cast<size_t>(get_arrow_proxy().offset());
         // move the offsets after the erased ones
         std::move(
-            sparrow::next(offset_buffer_adaptor.begin(), index + count + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + count + 1),
             offset_buffer_adaptor.end(),
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1)
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1)
         );
         offset_buffer_adaptor.resize(offset_buffer_adaptor.size() - count);
         // adjust the offsets for the subsequent elements
         std::for_each(
-            sparrow::next(offset_buffer_adaptor.begin(), index + 1),
+            sparrow::next(offset_buffer_adaptor.begin(), buffer_index + 1),
             offset_buffer_adaptor.end(),
             [difference](OT& offset)
             {
-- 
2.43.0


From 3f2f14e9422622771598ae91ec5dfa2ab1119efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:18 +0000
Subject: [PATCH 52/95] fix: growing an array whose buffer holds more values
 than its length adds the given value

---
 include/sparrow/layout/primitive_array.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index 331546e..f559404 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -416,8 +416,14 @@ namespace sparrow
     template <class T>
     void primitive_array<T>::resize_values(size_type new_length, inner_value_type value)
     {
-        const size_t new_size = new_length + static_cast<size_t>(this->get_arrow_proxy().offset());
-        get_data_buffer().resize(new_size, value);
+        const size_t offset = static_cast<size_t>(this->get_arrow_proxy().offset());
+        auto data_buffer = get_data_buffer();
+        if (new_length > this->size())
+        {
+            // The buffer may hold values past the last element of the array
+            data_buffer.resize(offset + this->size());
+        }
+        data_buffer.resize(offset + new_length, value);
     }
 
     template <class T>
-- 
2.43.0


From ee2fc09c4f5f72f37878c36c027a78d0453d9f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 53/95] fix: mutable iteration over a string view array refers
 to the array

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index a39c201..f56a266 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -338,7 +338,7 @@ namespace sparrow
     template <class T>
     auto variable_size_binary_view_array_impl<T>::value_begin() -> value_iterator
     {
-        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(), 0);
+        return value_iterator(detail::layout_value_functor<self_type, inner_value_type>(this), 0);
     }
 
     template <class T>
-- 
2.43.0


From d66b951cff7e14f63427333e436137759099b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 54/95] fix: string view arrays take their offset into account

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index f56a266..5f9eff6 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -308,7 +308,9 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(i < this->size());
 
         constexpr std::size_t element_size = 16;
-        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>() + (i * element_size);
+        const auto index = i + static_cast<size_type>(this->get_arrow_proxy().offset());
+        auto data_ptr = this->get_arrow_proxy().buffers()[LENGTH_BUFFER_INDEX].template data<uint8_t>()
+                        + (index * element_size);
 
         auto length = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr));
         using char_or_byte = typename inner_const_reference::value_type;
-- 
2.43.0


From ae056df1afbf1227d5f2e4609a1fb384045dc653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 55/95] fix: string views index the variadic data buffers from
 0

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 5f9eff6..9197177 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -219,8 +219,8 @@ namespace sparrow
                 auto prefix_sub_range = val_casted | std::ranges::views::take(PREFIX_SIZE);
                 std::ranges::copy(prefix_sub_range, length_ptr + PREFIX_OFFSET);
 
-                // write the buffer index
-                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = static_cast<std::int32_t>(FIRST_VAR_DATA_BUFFER_INDEX);
+                // write the buffer index, relative to the first variadic data buffer
+                *reinterpret_cast<std::int32_t*>(length_ptr +  BUFFER_INDEX_OFFSET) = 0;
 
                 // write the buffer offset
                 *reinterpret_cast<std::int32_t*>(length_ptr + BUFFER_OFFSET_OFFSET) = static_cast<std::int32_t>(long_string_storage_size);
@@ -328,7 +328,7 @@ namespace sparrow
             constexpr std::ptrdiff_t buffer_offset_offset = 12;
             auto buffer_index = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_index_offset));
             auto buffer_offset = static_cast<std::size_t>(*reinterpret_cast<const std::int32_t*>(data_ptr + buffer_offset_offset));
-            auto buffer = this->get_arrow_proxy().buffers()[buffer_index].template data<const char_or_byte>();
+            auto buffer = this->get_arrow_proxy().buffers()[FIRST_VAR_DATA_BUFFER_INDEX + buffer_index].template data<const char_or_byte>();
             return inner_const_reference(buffer + buffer_offset,  length);
         }
 
-- 
2.43.0


From 92eb20d517d48eb4927b20041e79a1ad3313a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 56/95] fix: the last buffer of a view array has one size per
 variadic data buffer

---
 src/arrow_interface/arrow_array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 28a345e..75bd419 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -192,7 +192,7 @@ namespace sparrow
                 {
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
                 }
-                buffers.back() = make_buffer(buffer_count -1 , size * 4);
+                buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
         }
         // To avoid stupid warning "control reaches end of non-void function"
-- 
2.43.0


From 4efc499f1359b577c6dbcfd80678956e1332c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 57/95] fix: importing an unknown format is an error, not a
 null array

---
 src/array_factory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/array_factory.cpp b/src/array_factory.cpp
index 4e4302c..827a628 100644
--- a/src/array_factory.cpp
+++ b/src/array_factory.cpp
@@ -69,6 +69,11 @@ namespace sparrow
             switch(dt)
             {
             case data_type::NA:
+                if (proxy.format() != data_type_to_format(data_type::NA))
+                {
+                    // format_to_data_type returns NA when it does not know the format
+                    throw std::runtime_error("not supported data type");
+                }
                 return detail::make_wrapper_ptr<null_array>(std::move(proxy));
             case data_type::BOOL:
                 return detail::make_wrapper_ptr<primitive_array<bool>>(std::move(proxy));
-- 
2.43.0


From bbd9467a887d2fce19ccd9fe265c06e69fbdd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 58/95] fix: importing a large string array is an error, it has
 64 bits offsets

---
 src/array_factory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/array_factory.cpp b/src/array_factory.cpp
index 827a628..29df008 100644
--- a/src/array_factory.cpp
+++ b/src/array_factory.cpp
@@ -114,6 +114,11 @@ namespace sparrow
             case data_type::STRUCT:
                 return detail::make_wrapper_ptr<struct_array>(std::move(proxy));
             case data_type::STRING:
+                if (proxy.format() != data_type_to_format(data_type::STRING))
+                {
+                    // string_array has 32 bits offsets
+                    throw std::runtime_error("not yet supported data type");
+                }
                 return detail::make_wrapper_ptr<string_array>(std::move(proxy)); 
             case data_type::RUN_ENCODED:
                 return detail::make_wrapper_ptr<run_end_encoded_array>(std::move(proxy));
-- 
2.43.0


From 26851f03e6c40eb3def7a26f8ebf55d2f22c38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 59/95] fix: the width of decimal values follows their format

---
 src/arrow_interface/arrow_array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 75bd419..a417af6 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -95,7 +95,7 @@ namespace sparrow
         else
         {
             // get the position of second comma
-            const auto second_comma_ptr = std::strchr(format, ',');
+            const auto second_comma_ptr = std::strrchr(format, ',');
             if(!all_digits(std::string_view(second_comma_ptr + 1)))
             {
                 throw std::runtime_error("Invalid format for decimal");
@@ -177,7 +177,7 @@ namespace sparrow
             case data_type::TIMESTAMP:
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::DECIMAL:
-                return {make_valid_buffer(), make_buffer(1, size * 16)}; 
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
             case data_type::FIXED_WIDTH_BINARY:
                 return {make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))};
             case data_type::STRING_VIEW:
-- 
2.43.0


From 9e217766a456c3021c468624b8d2b70def858340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 60/95] fix: map arrays have a validity and an offsets buffer

---
 .../sparrow/arrow_interface/arrow_array_schema_info_utils.hpp | 2 +-
 src/arrow_interface/arrow_array.cpp                           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
index b4e1398..498f341 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_info_utils.hpp
@@ -62,8 +62,8 @@ namespace sparrow
             case data_type::FIXED_SIZED_LIST:
             case data_type::STRING_VIEW:
             case data_type::BINARY_VIEW:
-                return true;
             case data_type::MAP:
+                return true;
             case data_type::NA:
             case data_type::SPARSE_UNION:
             case data_type::DENSE_UNION:
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index a417af6..40a9ed7 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -138,7 +138,6 @@ namespace sparrow
         {   
             case data_type::NA:
             case data_type::RUN_ENCODED:
-            case data_type::MAP:
                 return {};
             case data_type::BOOL:  // The values are stored as bytes
             case data_type::UINT8:
@@ -160,6 +159,7 @@ namespace sparrow
             case data_type::BINARY:
                 return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, last_offset(static_const_ptr_cast<int32_t>(array.buffers[1])))};
             case data_type::LIST:
+            case data_type::MAP:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
             case data_type::LARGE_LIST:
                 return {make_valid_buffer(), make_buffer(1, (size + 1) * 8)};
@@ -210,7 +210,7 @@ namespace sparrow
         {
             return buffer<std::uint8_t>((size + 7) / 8, std::uint8_t(0xFF));
         }
-        if (index == 1 && (dt == data_type::STRING || dt == data_type::BINARY || dt == data_type::LIST))
+        if (index == 1 && (dt == data_type::STRING || dt == data_type::BINARY || dt == data_type::LIST || dt == data_type::MAP))
         {
             return buffer<std::uint8_t>((size + 1) * sizeof(std::int32_t), std::uint8_t(0));
         }
-- 
2.43.0


From 285af18ac7edaa55ae3f0d58b1ebf39b76cdf046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 61/95] fix: the width of temporal values follows their format

---
 src/arrow_interface/arrow_array.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 40a9ed7..79aa79f 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -75,6 +75,18 @@ namespace sparrow
         return static_cast<std::size_t>(width);
     }
 
+    // get the byte width of date, time, timestamp, duration and interval values from format
+    std::size_t num_bytes_for_temporal(std::string_view format)
+    {
+        //    tdD, tts, ttm, tiM -> 4 bytes
+        //    tin                -> 16 bytes
+        if (format == "tdD" || format == "tts" || format == "ttm" || format == "tiM")
+        {
+            return 4;
+        }
+        return format == "tin" ? 16 : 8;
+    }
+
     // get the bit width for decimal value type from format
     std::size_t num_bytes_for_decimal(const char* format)
     {
@@ -175,7 +187,7 @@ namespace sparrow
             case data_type::DENSE_UNION:
                 return {make_buffer(0, size), make_buffer(1, size*4)};
             case data_type::TIMESTAMP:
-                return {make_valid_buffer(), make_buffer(1, size * 8)};
+                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_temporal(schema.format))};
             case data_type::DECIMAL:
                 return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
             case data_type::FIXED_WIDTH_BINARY:
-- 
2.43.0


From 188a9e6d62eb086442836debac717160cd3ad08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 62/95] fix: large string and binary arrays have 64 bits
 offsets

---
 src/arrow_interface/arrow_array.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 79aa79f..4084ccd 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -169,6 +169,10 @@ namespace sparrow
                 return {make_valid_buffer(), make_buffer(1, size * 8)};
             case data_type::STRING:
             case data_type::BINARY:
+                if (schema.format[0] == 'U' || schema.format[0] == 'Z')
+                {
+                    return {make_valid_buffer(), make_buffer(1, (size + 1) * 8), make_buffer(2, last_offset(static_const_ptr_cast<int64_t>(array.buffers[1])))};
+                }
                 return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, last_offset(static_const_ptr_cast<int32_t>(array.buffers[1])))};
             case data_type::LIST:
             case data_type::MAP:
@@ -222,6 +226,10 @@ namespace sparrow
         {
             return buffer<std::uint8_t>((size + 7) / 8, std::uint8_t(0xFF));
         }
+        if (index == 1 && (schema.format[0] == 'U' || schema.format[0] == 'Z'))
+        {
+            return buffer<std::uint8_t>((size + 1) * sizeof(std::int64_t), std::uint8_t(0));
+        }
         if (index == 1 && (dt == data_type::STRING || dt == data_type::BINARY || dt == data_type::LIST || dt == data_type::MAP))
         {
             return buffer<std::uint8_t>((size + 1) * sizeof(std::int32_t), std::uint8_t(0));
-- 
2.43.0


From 307c5146a3446f5de59b6dd062ddafd2c9d0f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 63/95] fix: binary arrays report the binary data type

---
 include/sparrow/types/data_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/types/data_traits.hpp b/include/sparrow/types/data_traits.hpp
index 96c85b7..ffb714a 100644
--- a/include/sparrow/types/data_traits.hpp
+++ b/include/sparrow/types/data_traits.hpp
@@ -57,7 +57,7 @@ namespace sparrow
     template <>
     struct arrow_traits<std::vector<byte_t>>
     {
-        static constexpr data_type type_id = data_type::STRING;
+        static constexpr data_type type_id = data_type::BINARY;
         using value_type = std::vector<byte_t>;
     };
 
-- 
2.43.0


From a2c2540d61460202e9e8827ab6ba51adeabde9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 64/95] fix: a default constructed array is empty

---
 src/array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 2b08f14..7ca0a4f 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -44,7 +44,7 @@ namespace sparrow
 
     enum data_type array::data_type() const
     {
-        return p_array->data_type();
+        return p_array ? p_array->data_type() : sparrow::data_type::NA;
     }
 
     bool array::empty() const
@@ -54,7 +54,7 @@ namespace sparrow
 
     array::size_type array::size() const
     {
-        return array_size(*p_array);
+        return p_array ? array_size(*p_array) : size_type(0);
     }
 
     array::const_reference array::at(size_type index) const
-- 
2.43.0


From d422e0607e809a216b5cf09b3d0c26f492b8bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 65/95] fix: constant view arrays can be iterated

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 9197177..9b4cbfc 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -165,6 +165,9 @@ namespace sparrow
 
         friend base_type;
         friend base_type::base_type;
+        friend base_type::base_type::base_type;
+        friend class detail::layout_value_functor<self_type, inner_value_type>;
+        friend class detail::layout_value_functor<const self_type, inner_reference>;
 
     };
 
-- 
2.43.0


From 77e9c8b8a57cc2312f35e3bdd16102965e1971ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 66/95] fix: malformed type ids of a union format are rejected

---
 include/sparrow/layout/union_array.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index f143505..c74e0a9 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -215,7 +215,14 @@ namespace sparrow
         constexpr std::string_view delim { "," };
         std::size_t child_index = 0;    
         std::ranges::for_each(format_string | std::views::split(delim), [&](const auto& s) { 
-            const auto as_int = std::atoi(std::string(s.begin(), s.end()).c_str());
+            const std::string id(s.begin(), s.end());
+            const bool is_number = !id.empty() && id.size() <= 3
+                                   && id.find_first_not_of("0123456789") == std::string::npos;
+            const auto as_int = is_number ? std::atoi(id.c_str()) : -1;
+            if (as_int < 0 || static_cast<std::size_t>(as_int) >= ret.size())
+            {
+                throw std::runtime_error("Invalid format for union");
+            }
             ret[static_cast<std::size_t>(as_int)] = static_cast<std::uint8_t>(child_index);
             ++child_index;
         });
-- 
2.43.0


From d005793366b8b70ff668a4af3866dd9af331c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 67/95] fix: a malformed size of a fixed-size list format is
 rejected

---
 include/sparrow/layout/list_layout/list_array.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index c85507e..c4c9890 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -679,6 +679,10 @@ namespace sparrow
         SPARROW_ASSERT(format.size() >= 3, "Invalid format string");
         const auto n_digits = format.size() - 3;
         const auto list_size_str = format.substr(3, n_digits);
+        if (list_size_str.empty() || list_size_str.find_first_not_of("0123456789") != std::string_view::npos)
+        {
+            throw std::runtime_error("Invalid format for fixed size list");
+        }
         return std::stoull(std::string(list_size_str));
     }
 
-- 
2.43.0


From 405833727c95b05f795e41ef83b15e87466b1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:45 +0000
Subject: [PATCH 68/95] fix: only +r is the format of run-end encoded arrays

---
 include/sparrow/types/data_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sparrow/types/data_type.hpp b/include/sparrow/types/data_type.hpp
index 243901c..b286eaa 100644
--- a/include/sparrow/types/data_type.hpp
+++ b/include/sparrow/types/data_type.hpp
@@ -255,7 +255,7 @@ namespace sparrow
         {
             return data_type::SPARSE_UNION;
         }
-        else if (format.starts_with("+r"))
+        else if (format == "+r")
         {
             return data_type::RUN_ENCODED;
         }
-- 
2.43.0


From aa0d415374ab5a4b6ea579efb5804264ea48c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 69/95] fix: hidden values of null ranges are accounted for by
 the builder

---
 include/sparrow/builder/builder_utils.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/builder/builder_utils.hpp b/include/sparrow/builder/builder_utils.hpp
index 0fd7c58..8a48cdb 100644
--- a/include/sparrow/builder/builder_utils.hpp
+++ b/include/sparrow/builder/builder_utils.hpp
@@ -273,14 +273,9 @@ namespace detail
         using decayed = std::decay_t<T>;
         if constexpr(is_nullable_like<decayed>)
         {
-            if (t.has_value())
-            {
-                return get_size_save(t.get());
-            }
-            else
-            {
-                return 0;
-            }
+            // the elements held by a null value are part of the flattened
+            // data too, so that they have to be accounted for.
+            return get_size_save(t.get());
         }
         else if constexpr(is_express_layout_desire<decayed>)
         {
-- 
2.43.0


From 7d7a48441234ae9732b0a4546f9ef40fd92d74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 70/95] fix: the dictionary encoding of the builder supports
 NaN

---
 include/sparrow/builder/nested_less.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/sparrow/builder/nested_less.hpp b/include/sparrow/builder/nested_less.hpp
index b3116ce..86bfc9c 100644
--- a/include/sparrow/builder/nested_less.hpp
+++ b/include/sparrow/builder/nested_less.hpp
@@ -37,6 +37,17 @@ namespace sparrow
         {
             bool operator()(const T& a, const T& b) const
             {
+                if constexpr (std::is_floating_point_v<T>)
+                {
+                    // operator< is not a strict weak ordering in the presence
+                    // of NaN, which is ordered after any other value here.
+                    const bool a_is_nan = a != a;
+                    const bool b_is_nan = b != b;
+                    if (a_is_nan || b_is_nan)
+                    {
+                        return !a_is_nan && b_is_nan;
+                    }
+                }
                 return a < b;
             }
         };  
-- 
2.43.0


From 21c7b197db2a94a5ad3755a274bcae4a149401f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 71/95] fix: buffer edits refresh the pointers of an array
 whose schema is foreign

---
 src/arrow_array_schema_proxy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 832d460..d7a2b36 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -37,7 +37,7 @@ namespace sparrow
 
     void arrow_proxy::update_buffers()
     {
-        if (is_created_with_sparrow())
+        if (array_created_with_sparrow())
         {
             get_array_private_data()->update_buffers_ptrs();
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
-- 
2.43.0


From 25c1878c99913711252c874715b569a97b480260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 72/95] fix: the format and the null count depend on the
 structure they belong to only

---
 src/arrow_array_schema_proxy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index d7a2b36..17f5427 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -244,7 +244,7 @@ namespace sparrow
 
     void arrow_proxy::set_format(const std::string_view format)
     {
-        if (!is_created_with_sparrow())
+        if (!schema_created_with_sparrow())
         {
             throw arrow_proxy_exception("Cannot set format on non-sparrow created ArrowArray");
         }
@@ -359,7 +359,7 @@ namespace sparrow
 
     void arrow_proxy::set_null_count(int64_t null_count)
     {
-        if (!is_created_with_sparrow())
+        if (!array_created_with_sparrow())
         {
             throw arrow_proxy_exception("Cannot set null_count on non-sparrow created ArrowArray");
         }
-- 
2.43.0


From 7c86d9b0b7c939defd09de4bf2029451b6aa86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 73/95] fix: bitmap edits raise their documented exceptions

---
 include/sparrow/arrow_array_schema_proxy.hpp |  9 ++++----
 src/arrow_array_schema_proxy.cpp             | 24 ++++++++++++--------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 7967518..d720dfc 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <optional>
+#include <stdexcept>
 #include <string_view>
 
 #include "sparrow/arrow_interface/arrow_array/private_data.hpp"
@@ -473,19 +474,17 @@ namespace sparrow
     template <std::ranges::input_range R>
     inline size_t arrow_proxy::insert_bitmap(size_t index, const R& range)
     {
-        if (!is_created_with_sparrow())
+        auto bitmap = get_non_owning_dynamic_bitset();
+        if (index > length())
         {
-            throw arrow_proxy_exception("Cannot modify the bitmap on non-sparrow created ArrowArray");
+            throw std::out_of_range("Cannot insert values after the end of the bitmap");
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
-        SPARROW_ASSERT_TRUE(index <= length())
         const auto first = range.begin();
         const auto last = range.end();
         if (first == last)
         {
             return index;
         }
-        auto bitmap = get_non_owning_dynamic_bitset();
         const auto pos = sparrow::next(bitmap.cbegin(), index + offset());
         const auto it = bitmap.insert(pos, first, last);
         update_buffers();
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 17f5427..6e48e0b 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -14,6 +14,7 @@
 
 #include "sparrow/arrow_array_schema_proxy.hpp"
 
+#include <stdexcept>
 #include <utility>
 
 #include "sparrow/arrow_interface/arrow_array.hpp"
@@ -774,8 +775,10 @@ namespace sparrow
             );
         }
 
-        SPARROW_ASSERT_TRUE(is_created_with_sparrow())
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
+        if (!has_bitmap(data_type()))
+        {
+            throw arrow_proxy_exception("The format of the ArrowArray does not support a validity bitmap");
+        }
         auto private_data = static_cast<arrow_array_private_data*>(array().private_data);
         auto& bitmap_buffer = private_data->buffers()[bitmap_buffer_index];
         const size_t current_size = length() + offset();
@@ -790,7 +793,6 @@ namespace sparrow
             throw arrow_proxy_exception("Cannot resize bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         auto bitmap = get_non_owning_dynamic_bitset();
         bitmap.resize(new_size, value);
         update_buffers();
@@ -804,13 +806,15 @@ namespace sparrow
                 "Cannot insert values in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
-        SPARROW_ASSERT_TRUE(std::cmp_less_equal(index, length()))
+        auto bitmap = get_non_owning_dynamic_bitset();
+        if (index > length())
+        {
+            throw std::out_of_range("Cannot insert values after the end of the bitmap");
+        }
         if (count == 0)
         {
             return index;
         }
-        auto bitmap = get_non_owning_dynamic_bitset();
         const auto pos = sparrow::next(bitmap.cbegin(), index + offset());
         const auto it = bitmap.insert(pos, count, value);
         update_buffers();
@@ -825,9 +829,11 @@ namespace sparrow
                 "Cannot erase values in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
-        SPARROW_ASSERT_TRUE(std::cmp_less(index, length()))
         auto bitmap = get_non_owning_dynamic_bitset();
+        if (index >= length())
+        {
+            throw std::out_of_range("Cannot erase values after the end of the bitmap");
+        }
         const auto it_first = sparrow::next(bitmap.cbegin(), index + offset());
         const auto it_last = sparrow::next(it_first, count);
         const auto it = bitmap.erase(it_first, it_last);
@@ -843,7 +849,6 @@ namespace sparrow
                 "Cannot push_back value in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         insert_bitmap(length(), value);
         update_buffers();
     }
@@ -856,7 +861,6 @@ namespace sparrow
                 "Cannot pop_back value in bitmap on a non-sparrow created ArrowArray or ArrowSchema"
             );
         }
-        SPARROW_ASSERT_TRUE(has_bitmap(data_type()))
         erase_bitmap(length() - 1);
         update_buffers();
     }
-- 
2.43.0


From 5de1617d6e4c4d361babf2b046222e1d5ffd1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 74/95] fix: the number of buffers of view arrays can be
 changed

---
 src/arrow_interface/arrow_array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 4084ccd..871ee2f 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -206,7 +206,8 @@ namespace sparrow
                 buffers[1] = make_buffer(1, size * 16);
                 for (size_t i = 0; i < num_extra_data_buffers; ++i)
                 {
-                    buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes[i]);
+                    // The sizes are not known yet if the number of buffers has just been changed
+                    buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes != nullptr ? var_buffer_sizes[i] : 0);
                 }
                 buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
                 return buffers;
-- 
2.43.0


From 2c399fa64b4228762a5195291a29aa28d39be60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 75/95] fix: constructing an array loses nothing when it is
 interrupted

---
 .../arrow_array_schema_utils.hpp              | 131 ++++++++++++++++++
 .../layout/dictionary_encoded_array.hpp       |  15 +-
 .../sparrow/layout/list_layout/list_array.hpp |  45 +++---
 include/sparrow/layout/primitive_array.hpp    |   6 +-
 .../layout/struct_layout/struct_array.hpp     |  19 ++-
 include/sparrow/layout/union_array.hpp        |  44 +++---
 .../variable_size_binary_array.hpp            |   6 +-
 .../variable_size_binary_view_array.hpp       |   6 +-
 src/run_encoded_array.cpp                     |  27 ++--
 9 files changed, 215 insertions(+), 84 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
index 0704252..51254f9 100644
--- a/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
+++ b/include/sparrow/arrow_interface/arrow_array_schema_utils.hpp
@@ -15,10 +15,13 @@
 #pragma once
 
 #include <algorithm>
+#include <cstddef>
+#include <memory>
 #include <optional>
 #include <ranges>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include "sparrow/c_interface.hpp"
@@ -55,6 +58,134 @@ namespace sparrow
         bool m_owns_dictionary = true;
     };
 
+    /**
+     * Owner of an `ArrowArray` or an `ArrowSchema` under construction: releases it, unless it has
+     * been extracted.
+     *
+     * @tparam T `ArrowArray` or `ArrowSchema`
+     */
+    template <class T>
+        requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
+    class arrow_structure_owner
+    {
+    public:
+
+        explicit arrow_structure_owner(T structure) noexcept
+            : m_structure(structure)
+        {
+        }
+
+        arrow_structure_owner(const arrow_structure_owner&) = delete;
+        arrow_structure_owner& operator=(const arrow_structure_owner&) = delete;
+
+        ~arrow_structure_owner()
+        {
+            if (m_structure.release != nullptr)
+            {
+                m_structure.release(&m_structure);
+            }
+        }
+
+        [[nodiscard]] T extract() noexcept
+        {
+            return std::exchange(m_structure, T{});
+        }
+
+    private:
+
+        T m_structure;
+    };
+
+    /**
+     * Owner of the children, or of the dictionary, of an `ArrowArray` or an `ArrowSchema` under
+     * construction: releases and deallocates them, unless they have been extracted.
+     *
+     * @tparam T `ArrowArray` or `ArrowSchema`
+     */
+    template <class T>
+        requires std::same_as<T, ArrowArray> || std::same_as<T, ArrowSchema>
+    class arrow_children_owner
+    {
+    public:
+
+        // Allocates the children, they are empty
+        explicit arrow_children_owner(std::size_t n)
+            : arrow_children_owner()
+        {
+            m_children = std::make_unique<T*[]>(n);
+            for (; m_size < n; ++m_size)
+            {
+                m_children[m_size] = new T{};
+            }
+        }
+
+        arrow_children_owner(const arrow_children_owner&) = delete;
+        arrow_children_owner& operator=(const arrow_children_owner&) = delete;
+
+        ~arrow_children_owner()
+        {
+            for (std::size_t i = 0; i < m_size; ++i)
+            {
+                if (m_children[i]->release != nullptr)
+                {
+                    m_children[i]->release(m_children[i]);
+                }
+                delete m_children[i];
+            }
+        }
+
+        void set(std::size_t i, const T& child) noexcept
+        {
+            *m_children[i] = child;
+        }
+
+        [[nodiscard]] T** get() noexcept
+        {
+            return m_children.get();
+        }
+
+        // To be called once a structure has become the owner of the children
+        void extract() noexcept
+        {
+            m_size = 0;
+            static_cast<void>(m_children.release());
+        }
+
+        // To be called once a structure has become the owner of the only child
+        void extract_single() noexcept
+        {
+            m_size = 0;
+        }
+
+    private:
+
+        arrow_children_owner() = default;
+
+        std::unique_ptr<T*[]> m_children = nullptr;
+        std::size_t m_size = 0;
+    };
+
+    /**
+     * Owner of the children, or of the dictionary, of both structures of an array under construction.
+     */
+    struct arrow_children_pair_owner
+    {
+        explicit arrow_children_pair_owner(std::size_t n)
+            : arrays(n)
+            , schemas(n)
+        {
+        }
+
+        void set(std::size_t i, const std::pair<ArrowArray, ArrowSchema>& child) noexcept
+        {
+            arrays.set(i, child.first);
+            schemas.set(i, child.second);
+        }
+
+        arrow_children_owner<ArrowArray> arrays;
+        arrow_children_owner<ArrowSchema> schemas;
+    };
+
     /**
      * Release the children and dictionnary of an `ArrowArray` or `ArrowSchema`.
      * 
diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index 1a7b79d..3c9f4db 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -235,19 +235,21 @@ namespace sparrow
         const auto size = keys.size();
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VBI>(validity_input));
 
-        auto [value_array, value_schema] = extract_arrow_structures(std::move(values));
+        arrow_children_pair_owner value_structures(1);
+        value_structures.set(0, extract_arrow_structures(std::move(values)));
         const auto null_count = vbitmap.null_count();
 
         // create arrow schema and array
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             sparrow::data_type_format_of<IT>(),
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags
             0, // n_children
             nullptr, // children
-            new ArrowSchema(std::move(value_schema)) // dictionary
-        );
+            value_structures.schemas.get()[0] // dictionary
+        ));
+        value_structures.schemas.extract_single();
 
         std::vector<buffer<uint8_t>> buffers(2);
         buffers[0] = std::move(vbitmap).extract_storage();
@@ -261,9 +263,10 @@ namespace sparrow
             std::move(buffers),
             0, // n_children
             nullptr, // children
-            new ArrowArray(std::move(value_array)) // dictionary
+            value_structures.arrays.get()[0] // dictionary
         );
-        return arrow_proxy(std::move(arr), std::move(schema));
+        value_structures.arrays.extract_single();
+        return arrow_proxy(std::move(arr), schema.extract());
     }
 
     template <std::integral IT>
diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index c4c9890..7eb8487 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -504,20 +504,22 @@ namespace sparrow
         const auto size = list_offsets.size() - 1;
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
 
-        auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(flat_values));
+        arrow_children_pair_owner child_structures(1);
+        child_structures.set(0, extract_arrow_structures(std::move(flat_values)));
 
         const auto null_count = vbitmap.null_count();
 
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             BIG ? std::string("+L") : std::string("+l"), // format
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             1, // n_children
-            new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
+            child_structures.schemas.get(), // children
             nullptr // dictionary
 
-        );
+        ));
+        child_structures.schemas.extract();
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage(),
             std::move(list_offsets).extract_storage()
@@ -529,10 +531,11 @@ namespace sparrow
             0, // offset
             std::move(arr_buffs),
             1, // n_children
-            new ArrowArray*[1]{new ArrowArray(std::move(flat_arr))}, // children
+            child_structures.arrays.get(), // children
             nullptr // dictionary
         );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        child_structures.arrays.extract();
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 
     template <bool BIG>
@@ -592,20 +595,22 @@ namespace sparrow
         const auto size = list_sizes.size();
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
 
-        auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(flat_values));
+        arrow_children_pair_owner child_structures(1);
+        child_structures.set(0, extract_arrow_structures(std::move(flat_values)));
 
         const auto null_count = vbitmap.null_count();
 
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             BIG ? std::string("+vL") : std::string("+vl"), // format
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             1, // n_children
-            new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
+            child_structures.schemas.get(), // children
             nullptr // dictionary
 
-        );
+        ));
+        child_structures.schemas.extract();
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage(),
             std::move(list_offsets).extract_storage(),
@@ -618,10 +623,11 @@ namespace sparrow
             0, // offset
             std::move(arr_buffs),
             1, // n_children
-            new ArrowArray*[1]{new ArrowArray(std::move(flat_arr))}, // children
+            child_structures.arrays.get(), // children
             nullptr // dictionary
         );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        child_structures.arrays.extract();
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 
     template <bool BIG>
@@ -707,21 +713,23 @@ namespace sparrow
         const auto size = flat_values.size() / static_cast<std::size_t>(list_size);
         auto vbitmap = ensure_validity_bitmap(size, std::forward<R>(validity_input));
 
-        auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(flat_values));
+        arrow_children_pair_owner child_structures(1);
+        child_structures.set(0, extract_arrow_structures(std::move(flat_values)));
 
         const auto null_count = vbitmap.null_count();
 
         std::string format = "+w:" + std::to_string(list_size);
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             format,
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             1, // n_children
-            new ArrowSchema*[1]{new ArrowSchema(std::move(flat_schema))}, // children
+            child_structures.schemas.get(), // children
             nullptr // dictionary
 
-        );
+        ));
+        child_structures.schemas.extract();
         std::vector<buffer<std::uint8_t>> arr_buffs = {vbitmap.extract_storage()};
 
         ArrowArray arr = make_arrow_array(
@@ -730,9 +738,10 @@ namespace sparrow
             0, // offset
             std::move(arr_buffs),
             1, // n_children
-            new ArrowArray*[1]{new ArrowArray(std::move(flat_arr))}, // children
+            child_structures.arrays.get(), // children
             nullptr // dictionary
         );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        child_structures.arrays.extract();
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 }
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index f559404..f927081 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -267,7 +267,7 @@ namespace sparrow
         const auto null_count = bitmap.null_count();
 
         // create arrow schema and array
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             sparrow::data_type_format_of<T>(),
             std::nullopt,  // name
             std::nullopt,  // metadata
@@ -275,7 +275,7 @@ namespace sparrow
             0,             // n_children
             nullptr,       // children
             nullptr        // dictionary
-        );
+        ));
 
         std::vector<buffer<uint8_t>> buffers(2);
         buffers[0] = std::move(bitmap).extract_storage();
@@ -291,7 +291,7 @@ namespace sparrow
             nullptr,  // children
             nullptr   // dictionary
         );
-        return arrow_proxy(std::move(arr), std::move(schema));
+        return arrow_proxy(std::move(arr), schema.extract());
     }
 
     template <class T>
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 618d0d9..611959f 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -150,8 +150,7 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        arrow_children_pair_owner child_structures(n_children);
 
         const auto size = children[0].size();
         
@@ -159,23 +158,22 @@ namespace sparrow
         {
             auto & child = children[i];
             SPARROW_ASSERT_TRUE(child.size() == size);
-            auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(child));
-            child_arrays[i] = new ArrowArray(std::move(flat_arr));
-            child_schemas[i] = new ArrowSchema(std::move(flat_schema));
+            child_structures.set(i, extract_arrow_structures(std::move(child)));
         }
 
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
         const auto null_count = vbitmap.null_count();
         
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             std::string("+s"), // format
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             static_cast<int64_t>(n_children),
-            child_schemas, // children
+            child_structures.schemas.get(), // children
             nullptr // dictionary
-        );
+        ));
+        child_structures.schemas.extract();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage()
@@ -187,10 +185,11 @@ namespace sparrow
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
-            child_arrays, // children
+            child_structures.arrays.get(), // children
             nullptr // dictionary
         );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        child_structures.arrays.extract();
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 
     inline auto struct_array::raw_child(std::size_t i) const -> const array_wrapper*
diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index c74e0a9..1162a2c 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -444,29 +444,26 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        std::string format = make_format_string(true /*dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
+        arrow_children_pair_owner child_structures(n_children);
         const auto size = element_type.size();
 
         for(std::size_t i=0; i<n_children; ++i)
         {
             auto & child = children[i];
-            auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(child));
-            child_arrays[i] = new ArrowArray(std::move(flat_arr));
-            child_schemas[i] = new ArrowSchema(std::move(flat_schema));
+            child_structures.set(i, extract_arrow_structures(std::move(child)));
         }
 
-        std::string format = make_format_string(true /*dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
-        
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             format,
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             static_cast<int64_t>(n_children),
-            child_schemas, // children
+            child_structures.schemas.get(), // children
             nullptr // dictionary
-        );
+        ));
+        child_structures.schemas.extract();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(element_type).extract_storage(),
@@ -479,10 +476,11 @@ namespace sparrow
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
-            child_arrays, // children
+            child_structures.arrays.get(), // children
             nullptr // dictionary
         );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        child_structures.arrays.extract();
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 
     #ifdef __GNUC__
@@ -514,29 +512,26 @@ namespace sparrow
     ) -> arrow_proxy
     {
         const auto n_children = children.size();
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
+        std::string format = make_format_string(false /*is dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
+        arrow_children_pair_owner child_structures(n_children);
         const auto size = element_type.size();
 
         for(std::size_t i=0; i<n_children; ++i)
         {
             auto & child = children[i];
-            auto [flat_arr, flat_schema] = extract_arrow_structures(std::move(child));
-            child_arrays[i] = new ArrowArray(std::move(flat_arr));
-            child_schemas[i] = new ArrowSchema(std::move(flat_schema));
+            child_structures.set(i, extract_arrow_structures(std::move(child)));
         }
 
-        std::string format = make_format_string(false /*is dense union*/, n_children, std::forward<TYPE_MAPPING>(child_index_to_type_id));
-
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             format,
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             static_cast<int64_t>(n_children),
-            child_schemas, // children
+            child_structures.schemas.get(), // children
             nullptr // dictionary
-        );
+        ));
+        child_structures.schemas.extract();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(element_type).extract_storage()
@@ -548,10 +543,11 @@ namespace sparrow
             0, // offset
             std::move(arr_buffs),
             static_cast<std::size_t>(n_children), // n_children
-            child_arrays, // children
+            child_structures.arrays.get(), // children
             nullptr // dictionary
         );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        child_structures.arrays.extract();
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 
     inline std::size_t sparse_union_array::element_offset(std::size_t i) const
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 3e260b9..a1cebad 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -318,7 +318,7 @@ namespace sparrow
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
         const auto null_count = vbitmap.null_count();
 
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             detail::variable_size_binary_format<T, OT>::format(),
             std::nullopt,  // name
             std::nullopt,  // metadata
@@ -327,7 +327,7 @@ namespace sparrow
             nullptr,       // children
             nullptr        // dictionary
 
-        );
+        ));
         std::vector<buffer<std::uint8_t>> arr_buffs = {
             std::move(vbitmap).extract_storage(),
             std::move(offsets).extract_storage(),
@@ -343,7 +343,7 @@ namespace sparrow
             nullptr,  // children
             nullptr   // dictionary
         );
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 
     template <std::ranges::sized_range T, class CR, layout_offset OT>
diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 9b4cbfc..9125b26 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -258,7 +258,7 @@ namespace sparrow
         u8_buffer<int64_t> buffer_sizes(static_cast<std::size_t>(1), static_cast<int64_t>(long_string_storage_size));
 
         // create arrow schema and array
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             std::is_same<T, std::string_view>::value ? std::string_view("vu") : std::string_view("vz"),
             std::nullopt, // name
             std::nullopt, // metadata
@@ -266,7 +266,7 @@ namespace sparrow
             0, // n_children
             nullptr, // children
             nullptr // dictionary
-        );
+        ));
 
         std::vector<buffer<uint8_t>> buffers{
             std::move(vbitmap).extract_storage(),
@@ -286,7 +286,7 @@ namespace sparrow
             nullptr // dictionary
         );
         
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        return arrow_proxy{std::move(arr), schema.extract()};
 
         #ifdef __GNUC__
         #    pragma GCC diagnostic pop
diff --git a/src/run_encoded_array.cpp b/src/run_encoded_array.cpp
index b313827..b394954 100644
--- a/src/run_encoded_array.cpp
+++ b/src/run_encoded_array.cpp
@@ -102,29 +102,21 @@ namespace sparrow
     {   
         auto [null_count, length] = extract_length_and_null_count(acc_lengths, encoded_values);
 
-        auto [acc_length_array, acc_length_schema] = extract_arrow_structures(std::move(acc_lengths));
-        auto [encoded_values_array, encoded_values_schema] = extract_arrow_structures(std::move(encoded_values));
-
         constexpr auto n_children = 2;
-        ArrowSchema** child_schemas = new ArrowSchema*[n_children];
-        ArrowArray** child_arrays = new ArrowArray*[n_children];
-
-        child_schemas[0] = new ArrowSchema(std::move(acc_length_schema));
-        child_schemas[1] = new ArrowSchema(std::move(encoded_values_schema));
-
-        child_arrays[0] = new ArrowArray(std::move(acc_length_array));
-        child_arrays[1] = new ArrowArray(std::move(encoded_values_array));
+        arrow_children_pair_owner child_structures(n_children);
+        child_structures.set(0, extract_arrow_structures(std::move(acc_lengths)));
+        child_structures.set(1, extract_arrow_structures(std::move(encoded_values)));
 
-
-        ArrowSchema schema = make_arrow_schema(
+        arrow_structure_owner<ArrowSchema> schema(make_arrow_schema(
             std::string("+r"),
             std::nullopt, // name
             std::nullopt, // metadata
             std::nullopt, // flags,
             n_children,
-            child_schemas, // children
+            child_structures.schemas.get(), // children
             nullptr // dictionary
-        );
+        ));
+        child_structures.schemas.extract();
 
         std::vector<buffer<std::uint8_t>> arr_buffs = {};
 
@@ -134,10 +126,11 @@ namespace sparrow
             0, // offset
             std::move(arr_buffs),
             n_children, // n_children
-            child_arrays, // children
+            child_structures.arrays.get(), // children
             nullptr // dictionary
         );
+        child_structures.arrays.extract();
 
-        return arrow_proxy{std::move(arr), std::move(schema)};
+        return arrow_proxy{std::move(arr), schema.extract()};
     }
 }
-- 
2.43.0


From 1549cf5a22efd612a654ffd9bd2beac89ec8c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 76/95] fix: viewing an array does not write to the structures
 it shares

---
 src/arrow_array_schema_proxy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 6e48e0b..32bfec7 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -127,7 +127,8 @@ namespace sparrow
         }
 
         validate_array_and_schema();
-        update_buffers();
+        // The structures may be shared with other proxies: they must not be written here
+        m_buffers = get_arrow_array_buffers(this->array(), this->schema());
         update_children();
         update_dictionary();
     }
-- 
2.43.0


From 6e65e8a4a6c600e061d8924308f97bcd81d528d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 77/95] fix: growing a buffer cannot overflow its capacity

---
 include/sparrow/buffer/buffer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 3548340..553786b 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -746,7 +746,8 @@ namespace sparrow
     {
         if(new_cap > capacity())
         {
-            reserve(new_cap * SPARROW_BUFFER_GROWTH_FACTOR);
+            const size_type growth_limit = max_size() / SPARROW_BUFFER_GROWTH_FACTOR;
+            reserve(new_cap <= growth_limit ? new_cap * SPARROW_BUFFER_GROWTH_FACTOR : std::max(new_cap, max_size()));
         }
     }
 
@@ -792,6 +793,10 @@ namespace sparrow
         {
             // value may refer to an element of this buffer
             const value_type copy(value);
+            if (count > max_size() - size())
+            {
+                throw std::length_error("buffer::insert called with a count that exceeds max_size()");
+            }
             const difference_type old_size = static_cast<difference_type>(size());
             reserve_with_growth_factor(size() + count);
             get_data().p_end = fill_initialize(get_data().p_end, count, copy, get_allocator());
-- 
2.43.0


From 8ab050e45d2e8ab4f81ce75bfc536c837d3af2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 78/95] fix: moving an Arrow proxy cannot turn into a copy

---
 include/sparrow/arrow_array_schema_proxy.hpp | 4 ++--
 src/arrow_array_schema_proxy.cpp             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index d720dfc..03226d7 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -82,8 +82,8 @@ namespace sparrow
         SPARROW_API arrow_proxy& operator=(const arrow_proxy&);
 
         // Move constructors
-        SPARROW_API arrow_proxy(arrow_proxy&&);
-        SPARROW_API arrow_proxy& operator=(arrow_proxy&&);
+        SPARROW_API arrow_proxy(arrow_proxy&&) noexcept;
+        SPARROW_API arrow_proxy& operator=(arrow_proxy&&) noexcept;
 
         SPARROW_API ~arrow_proxy();
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 32bfec7..2dc465f 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -173,7 +173,7 @@ namespace sparrow
         return *this;
     }
 
-    arrow_proxy::arrow_proxy(arrow_proxy&& other)
+    arrow_proxy::arrow_proxy(arrow_proxy&& other) noexcept
         : m_array(std::move(other.m_array))
         , m_schema(std::move(other.m_schema))
         , m_buffers(std::move(other.m_buffers))
@@ -185,7 +185,7 @@ namespace sparrow
         other.reset();
     }
 
-    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs)
+    arrow_proxy& arrow_proxy::operator=(arrow_proxy&& rhs) noexcept
     {
         swap(rhs);
         return *this;
-- 
2.43.0


From b7af46489316f6e5ab92b96db0e7f0aaf70cf9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 79/95] fix: setting an absent buffer leaves none

---
 .../sparrow/arrow_interface/arrow_array/private_data.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sparrow/arrow_interface/arrow_array/private_data.hpp b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
index 277dcf3..e21d53f 100644
--- a/include/sparrow/arrow_interface/arrow_array/private_data.hpp
+++ b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
@@ -92,7 +92,14 @@ namespace sparrow
     inline void arrow_array_private_data::set_buffer(std::size_t index, const buffer_view<std::uint8_t>& buffer)
     {
         SPARROW_ASSERT_TRUE(index < m_buffers.size());
-        m_buffers[index] = buffer;
+        if (buffer.data() != nullptr)
+        {
+            m_buffers[index] = buffer;
+        }
+        else  // An absent buffer has no address, unlike an empty one
+        {
+            m_buffers[index] = sparrow::buffer<std::uint8_t>();
+        }
         m_buffers_pointers[index] = m_buffers[index].data();
     }
 
-- 
2.43.0


From 6c4f399f6bcf31bd0d407510498c120e927f3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 80/95] fix: children that cannot be added leave the children
 as they were

---
 include/sparrow/arrow_array_schema_proxy.hpp | 40 +++++++++++++------
 src/arrow_array_schema_proxy.cpp             | 41 +++++++++++---------
 2 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/include/sparrow/arrow_array_schema_proxy.hpp b/include/sparrow/arrow_array_schema_proxy.hpp
index 03226d7..483ae62 100644
--- a/include/sparrow/arrow_array_schema_proxy.hpp
+++ b/include/sparrow/arrow_array_schema_proxy.hpp
@@ -437,13 +437,21 @@ namespace sparrow
         const size_t new_children_count = original_children_count + add_children_count;
 
         resize_children(new_children_count);
-        for (size_t i = 0; i < add_children_count; ++i)
+        try
         {
-            set_child(
-                i + original_children_count,
-                arrow_array_and_schema_pointers[i].array,
-                arrow_array_and_schema_pointers[i].schema
-            );
+            for (size_t i = 0; i < add_children_count; ++i)
+            {
+                set_child(
+                    i + original_children_count,
+                    arrow_array_and_schema_pointers[i].array,
+                    arrow_array_and_schema_pointers[i].schema
+                );
+            }
+        }
+        catch (...)
+        {
+            resize_children(original_children_count);
+            throw;
         }
     }
 
@@ -461,13 +469,21 @@ namespace sparrow
         const size_t new_children_count = original_children_count + add_children_count;
 
         resize_children(new_children_count);
-        for (size_t i = 0; i < add_children_count; ++i)
+        try
+        {
+            for (size_t i = 0; i < add_children_count; ++i)
+            {
+                set_child(
+                    i + original_children_count,
+                    std::move(arrow_arrays_and_schemas[i].array),
+                    std::move(arrow_arrays_and_schemas[i].schema)
+                );
+            }
+        }
+        catch (...)
         {
-            set_child(
-                i + original_children_count,
-                std::move(arrow_arrays_and_schemas[i].array),
-                std::move(arrow_arrays_and_schemas[i].schema)
-            );
+            resize_children(original_children_count);
+            throw;
         }
     }
 
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 2dc465f..1db58e1 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -14,6 +14,7 @@
 
 #include "sparrow/arrow_array_schema_proxy.hpp"
 
+#include <algorithm>
 #include <stdexcept>
 #include <utility>
 
@@ -458,34 +459,36 @@ namespace sparrow
 
         arrow_array_private_data* array_private_data = get_array_private_data();
         arrow_schema_private_data* schema_private_data = get_schema_private_data();
-        auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
-        auto new_schema_children = std::make_unique<ArrowSchema*[]>(children_count);
+        const size_t current_count = n_children();
 
-        // Release the remaining children if the new size is smaller than the current size
-        for (size_t i = children_count; i < static_cast<size_t>(array().n_children); ++i)
+        if (children_count > current_count)
         {
-            release_child(i);
-        }
+            // Everything that may throw comes first, so that a failure leaves the children as they are
+            auto new_array_children = std::make_unique<ArrowArray*[]>(children_count);
+            auto new_schema_children = std::make_unique<ArrowSchema*[]>(children_count);
+            m_children.reserve(children_count);
+            array_private_data->resize_children(children_count);
+            schema_private_data->resize_children(children_count);
 
-        for (size_t i = 0; i < std::min(children_count, static_cast<size_t>(array().n_children)); ++i)
+            std::copy_n(array().children, current_count, new_array_children.get());
+            std::copy_n(schema().children, current_count, new_schema_children.get());
+            delete[] std::exchange(array().children, new_array_children.release());
+            delete[] std::exchange(schema().children, new_schema_children.release());
+        }
+        else
         {
-            new_array_children[i] = array().children[i];
-            new_schema_children[i] = schema().children[i];
+            // Release the remaining children if the new size is smaller than the current size
+            for (size_t i = children_count; i < current_count; ++i)
+            {
+                release_child(i);
+            }
+            array_private_data->resize_children(children_count);
+            schema_private_data->resize_children(children_count);
         }
-        auto* tmp_array_children = array().children;
-        auto* tmp_schema_children = schema().children;
 
-        array().children = new_array_children.release();
         array().n_children = static_cast<int64_t>(children_count);
-        schema().children = new_schema_children.release();
         schema().n_children = static_cast<int64_t>(children_count);
-
-        array_private_data->resize_children(children_count);
-        schema_private_data->resize_children(children_count);
         m_children.resize(children_count, arrow_proxy());
-
-        new_array_children.reset(tmp_array_children);
-        new_schema_children.reset(tmp_schema_children);
     }
 
     arrow_schema_private_data* arrow_proxy::get_schema_private_data()
-- 
2.43.0


From f62207078b3d84da787c59ee41e84fe436e1da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 81/95] fix: refreshing the buffers of an array cannot fail

---
 .../sparrow/arrow_interface/arrow_array.hpp   | 10 ++++
 .../arrow_array/private_data.hpp              | 12 +++-
 src/arrow_array_schema_proxy.cpp              |  5 +-
 src/arrow_interface/arrow_array.cpp           | 57 +++++++++++--------
 4 files changed, 57 insertions(+), 27 deletions(-)

diff --git a/include/sparrow/arrow_interface/arrow_array.hpp b/include/sparrow/arrow_interface/arrow_array.hpp
index a8a0512..d19d73d 100644
--- a/include/sparrow/arrow_interface/arrow_array.hpp
+++ b/include/sparrow/arrow_interface/arrow_array.hpp
@@ -131,6 +131,16 @@ namespace sparrow
 
     SPARROW_API void release_arrow_array(ArrowArray* array);
 
+    /**
+     * Updates the views on the buffers of the `ArrowArray`. This cannot fail to allocate
+     * if the number of buffers has not increased since the views have been created.
+     */
+    SPARROW_API void update_arrow_array_buffers(
+        const ArrowArray& array,
+        const ArrowSchema& schema,
+        std::vector<sparrow::buffer_view<uint8_t>>& buffers
+    );
+
     SPARROW_API std::vector<sparrow::buffer_view<uint8_t>>
     get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema);
 
diff --git a/include/sparrow/arrow_interface/arrow_array/private_data.hpp b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
index e21d53f..8df09bc 100644
--- a/include/sparrow/arrow_interface/arrow_array/private_data.hpp
+++ b/include/sparrow/arrow_interface/arrow_array/private_data.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <vector>
 
 #include "sparrow/arrow_interface/arrow_array_schema_utils.hpp"
@@ -78,6 +79,7 @@ namespace sparrow
 
     constexpr void arrow_array_private_data::resize_buffers(std::size_t size)
     {
+        m_buffers_pointers.reserve(size);  // Ensures that updating the pointers cannot fail
         m_buffers.resize(size);
         update_buffers_ptrs();
     }
@@ -119,6 +121,14 @@ namespace sparrow
 
     constexpr void arrow_array_private_data::update_buffers_ptrs()
     {
-        m_buffers_pointers = to_raw_ptr_vec<std::uint8_t>(m_buffers);
+        m_buffers_pointers.resize(m_buffers.size());
+        std::ranges::transform(
+            m_buffers,
+            m_buffers_pointers.begin(),
+            [](auto& buffer)
+            {
+                return buffer.data();
+            }
+        );
     }
 }
diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index 1db58e1..b9bc673 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -45,7 +45,7 @@ namespace sparrow
             array().buffers = get_array_private_data()->buffers_ptrs<void>();
             array().n_buffers = static_cast<int64_t>(n_buffers());
         }
-        m_buffers = get_arrow_array_buffers(array(), schema());
+        update_arrow_array_buffers(array(), schema(), m_buffers);
     }
 
     void arrow_proxy::update_children()
@@ -396,9 +396,10 @@ namespace sparrow
         {
             throw arrow_proxy_exception("Cannot set n_buffers on non-sparrow created ArrowArray");
         }
-        array().n_buffers = static_cast<int64_t>(n_buffers);
+        m_buffers.reserve(n_buffers);
         arrow_array_private_data* private_data = get_array_private_data();
         private_data->resize_buffers(n_buffers);
+        array().n_buffers = static_cast<int64_t>(n_buffers);
         update_buffers();
     }
 
diff --git a/src/arrow_interface/arrow_array.cpp b/src/arrow_interface/arrow_array.cpp
index 871ee2f..15e90ac 100644
--- a/src/arrow_interface/arrow_array.cpp
+++ b/src/arrow_interface/arrow_array.cpp
@@ -124,9 +124,12 @@ namespace sparrow
     }
     
 
-    std::vector<sparrow::buffer_view<uint8_t>>
-    get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema)
-    {   
+    void update_arrow_array_buffers(
+        const ArrowArray& array,
+        const ArrowSchema& schema,
+        std::vector<sparrow::buffer_view<uint8_t>>& buffers
+    )
+    {
         using buffer_view_type = sparrow::buffer_view<uint8_t>;
         const auto size = static_cast<size_t>(array.length + array.offset);
         auto make_valid_buffer = [&]()
@@ -150,57 +153,57 @@ namespace sparrow
         {   
             case data_type::NA:
             case data_type::RUN_ENCODED:
-                return {};
+                return buffers.clear();
             case data_type::BOOL:  // The values are stored as bytes
             case data_type::UINT8:
             case data_type::INT8:
-                return {make_valid_buffer(), make_buffer(1, size)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size)});
             case data_type::UINT16:
             case data_type::INT16:
             case data_type::HALF_FLOAT:
-                return {make_valid_buffer(), make_buffer(1, size * 2)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * 2)});
             case data_type::UINT32:
             case data_type::INT32:
             case data_type::FLOAT:
-                return {make_valid_buffer(), make_buffer(1, size * 4)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * 4)});
             case data_type::UINT64:
             case data_type::INT64:
             case data_type::DOUBLE:
-                return {make_valid_buffer(), make_buffer(1, size * 8)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * 8)});
             case data_type::STRING:
             case data_type::BINARY:
                 if (schema.format[0] == 'U' || schema.format[0] == 'Z')
                 {
-                    return {make_valid_buffer(), make_buffer(1, (size + 1) * 8), make_buffer(2, last_offset(static_const_ptr_cast<int64_t>(array.buffers[1])))};
+                    return buffers.assign({make_valid_buffer(), make_buffer(1, (size + 1) * 8), make_buffer(2, last_offset(static_const_ptr_cast<int64_t>(array.buffers[1])))});
                 }
-                return {make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, last_offset(static_const_ptr_cast<int32_t>(array.buffers[1])))};
+                return buffers.assign({make_valid_buffer(),make_buffer(1, (size + 1) * 4), make_buffer(2, last_offset(static_const_ptr_cast<int32_t>(array.buffers[1])))});
             case data_type::LIST:
             case data_type::MAP:
-                return {make_valid_buffer(), make_buffer(1, (size + 1) * 4)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, (size + 1) * 4)});
             case data_type::LARGE_LIST:
-                return {make_valid_buffer(), make_buffer(1, (size + 1) * 8)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, (size + 1) * 8)});
             case data_type::LIST_VIEW:
-                return {make_valid_buffer(), make_buffer(1, size * 4), make_buffer(2, size * 4)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * 4), make_buffer(2, size * 4)});
             case data_type::LARGE_LIST_VIEW:
-                return {make_valid_buffer(), make_buffer(1, size * 8), make_buffer(2, size * 8)};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * 8), make_buffer(2, size * 8)});
             case data_type::FIXED_SIZED_LIST:
             case data_type::STRUCT:
-                return  {make_valid_buffer()};
+                return buffers.assign({make_valid_buffer()});
             case data_type::SPARSE_UNION:
-                return {make_buffer(0, size)};
+                return buffers.assign({make_buffer(0, size)});
             case data_type::DENSE_UNION:
-                return {make_buffer(0, size), make_buffer(1, size*4)};
+                return buffers.assign({make_buffer(0, size), make_buffer(1, size*4)});
             case data_type::TIMESTAMP:
-                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_temporal(schema.format))};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * num_bytes_for_temporal(schema.format))});
             case data_type::DECIMAL:
-                return {make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * num_bytes_for_decimal(schema.format))});
             case data_type::FIXED_WIDTH_BINARY:
-                return {make_valid_buffer(), make_buffer(1, size *  num_bytes_for_fixed_sized_binary(schema.format))};
+                return buffers.assign({make_valid_buffer(), make_buffer(1, size * num_bytes_for_fixed_sized_binary(schema.format))});
             case data_type::STRING_VIEW:
             case data_type::BINARY_VIEW:
                 const auto buffer_count = static_cast<size_t>(array.n_buffers);
                 const auto num_extra_data_buffers = buffer_count - 3;
-                std::vector<buffer_view_type> buffers(buffer_count);
+                buffers.resize(buffer_count);
                 int64_t * var_buffer_sizes = static_const_ptr_cast<int64_t>(array.buffers[buffer_count - 1]);
                 buffers[0] = make_valid_buffer();
                 buffers[1] = make_buffer(1, size * 16);
@@ -210,10 +213,16 @@ namespace sparrow
                     buffers[i + 2] = make_buffer(i + 2, var_buffer_sizes != nullptr ? var_buffer_sizes[i] : 0);
                 }
                 buffers.back() = make_buffer(buffer_count - 1, num_extra_data_buffers * sizeof(int64_t));
-                return buffers;
+                return;
         }
-        // To avoid stupid warning "control reaches end of non-void function"
-        return {};
+    }
+
+    std::vector<sparrow::buffer_view<uint8_t>>
+    get_arrow_array_buffers(const ArrowArray& array, const ArrowSchema& schema)
+    {
+        std::vector<sparrow::buffer_view<uint8_t>> buffers;
+        update_arrow_array_buffers(array, schema, buffers);
+        return buffers;
     }
 
     // Producers may omit the validity buffer of an array without nulls, and the offsets
-- 
2.43.0


From 1ca944a37bf7613b21153deb26c0ed9534a6441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 82/95] fix: a buffer destroys the elements it has constructed
 when the next one throws

---
 include/sparrow/buffer/buffer.hpp | 36 +++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/sparrow/buffer/buffer.hpp b/include/sparrow/buffer/buffer.hpp
index 553786b..49e7fc3 100644
--- a/include/sparrow/buffer/buffer.hpp
+++ b/include/sparrow/buffer/buffer.hpp
@@ -1041,9 +1041,17 @@ namespace sparrow
     constexpr auto buffer<T>::default_initialize(pointer begin, size_type n, allocator_type& a) -> pointer
     {
         pointer current = begin;
-        for (; n > 0; --n, ++current)
+        try
         {
-            alloc_traits::construct(a, current);
+            for (; n > 0; --n, ++current)
+            {
+                alloc_traits::construct(a, current);
+            }
+        }
+        catch (...)
+        {
+            destroy(begin, current, a);
+            throw;
         }
         return current;
     }
@@ -1053,9 +1061,17 @@ namespace sparrow
     buffer<T>::fill_initialize(pointer begin, size_type n, const value_type& v, allocator_type& a) -> pointer
     {
         pointer current = begin;
-        for (; n > 0; --n, ++current)
+        try
         {
-            alloc_traits::construct(a, current, v);
+            for (; n > 0; --n, ++current)
+            {
+                alloc_traits::construct(a, current, v);
+            }
+        }
+        catch (...)
+        {
+            destroy(begin, current, a);
+            throw;
         }
         return current;
     }
@@ -1065,9 +1081,17 @@ namespace sparrow
     constexpr auto buffer<T>::copy_initialize(It first, It last, pointer begin, allocator_type& a) -> pointer
     {
         pointer current = begin;
-        for (; first != last; ++first, ++current)
+        try
+        {
+            for (; first != last; ++first, ++current)
+            {
+                alloc_traits::construct(a, current, *first);
+            }
+        }
+        catch (...)
         {
-            alloc_traits::construct(a, current, *first);
+            destroy(begin, current, a);
+            throw;
         }
         return current;
     }
-- 
2.43.0


From 19e2067c2921a09c1288a605366ce8490ddd6d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 83/95] fix: a cloning_ptr whose copy throws does not terminate
 the program

---
 include/sparrow/utils/memory.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/sparrow/utils/memory.hpp b/include/sparrow/utils/memory.hpp
index dbfa9bf..9909c0f 100644
--- a/include/sparrow/utils/memory.hpp
+++ b/include/sparrow/utils/memory.hpp
@@ -139,25 +139,25 @@ namespace sparrow
 
         constexpr ~cloning_ptr() = default;
 
-        constexpr cloning_ptr(const self_type& rhs) noexcept;
+        constexpr cloning_ptr(const self_type& rhs);
         constexpr cloning_ptr(self_type&& rhs) noexcept = default;
         
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
-        constexpr cloning_ptr(const cloning_ptr<U>& rhs) noexcept;
+        constexpr cloning_ptr(const cloning_ptr<U>& rhs);
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
         constexpr cloning_ptr(cloning_ptr<U>&& rhs) noexcept;
 
-        constexpr self_type& operator=(const self_type&) noexcept;
+        constexpr self_type& operator=(const self_type&);
         constexpr self_type& operator=(self_type&&) noexcept = default;
         constexpr self_type& operator=(std::nullptr_t) noexcept;
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
-        constexpr self_type& operator=(const cloning_ptr<U>& rhs) noexcept;
+        constexpr self_type& operator=(const cloning_ptr<U>& rhs);
 
         template <clonable U>
         requires std::convertible_to<U*, T*>
@@ -351,7 +351,7 @@ namespace sparrow
     }
 
     template <clonable T>
-    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr& rhs) noexcept
+    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr& rhs)
         : m_data(rhs ? rhs->clone() : nullptr)
     {
     }
@@ -359,7 +359,7 @@ namespace sparrow
     template <clonable T>
     template <clonable U>
     requires std::convertible_to<U*, T*>
-    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr<U>& rhs) noexcept
+    constexpr cloning_ptr<T>::cloning_ptr(const cloning_ptr<U>& rhs)
         : m_data(rhs ? rhs->clone() : nullptr)
     {
     }
@@ -373,7 +373,7 @@ namespace sparrow
     }
 
     template <clonable T>
-    constexpr auto cloning_ptr<T>::operator=(const self_type& rhs) noexcept -> self_type&
+    constexpr auto cloning_ptr<T>::operator=(const self_type& rhs) -> self_type&
     {
         m_data = rhs ? rhs->clone() : nullptr;
         return *this;
@@ -389,7 +389,7 @@ namespace sparrow
     template <clonable T>
     template <clonable U>
     requires std::convertible_to<U*, T*>
-    constexpr auto cloning_ptr<T>::operator=(const cloning_ptr<U>& rhs) noexcept -> self_type&
+    constexpr auto cloning_ptr<T>::operator=(const cloning_ptr<U>& rhs) -> self_type&
     {
         m_data = rhs ? rhs->clone() : nullptr;
         return *this;
-- 
2.43.0


From dadc4259ff28e7340039fd79c5081ee1a1022126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 84/95] fix: repeating a value whose copy throws does not
 terminate the program

---
 include/sparrow/utils/repeat_container.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sparrow/utils/repeat_container.hpp b/include/sparrow/utils/repeat_container.hpp
index 93e2c9c..eea356e 100644
--- a/include/sparrow/utils/repeat_container.hpp
+++ b/include/sparrow/utils/repeat_container.hpp
@@ -77,7 +77,7 @@ namespace sparrow
          * @param value The value to repeat
          * @param count The number of times to repeat the value
          */
-        constexpr repeat_view(const T& value, size_t count) noexcept;
+        constexpr repeat_view(const T& value, size_t count) noexcept(std::is_nothrow_copy_constructible_v<T>);
 
         constexpr const_iterator begin() const noexcept;
         constexpr const_iterator end() const noexcept;
@@ -141,7 +141,9 @@ namespace sparrow
     }
 
     template <typename T>
-    constexpr repeat_view<T>::repeat_view(const T& value, size_t count) noexcept
+    constexpr repeat_view<T>::repeat_view(const T& value, size_t count) noexcept(
+        std::is_nothrow_copy_constructible_v<T>
+    )
         : m_value(value)
         , m_count(count)
     {
-- 
2.43.0


From 897586859678cbae984b89c2ed4b8ec47cd2cebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 85/95] fix: a record batch is unchanged when its assignment
 fails

---
 src/record_batch.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/record_batch.cpp b/src/record_batch.cpp
index 6c7ed8a..7021911 100644
--- a/src/record_batch.cpp
+++ b/src/record_batch.cpp
@@ -44,9 +44,10 @@ namespace sparrow
 
     record_batch& record_batch::operator=(const record_batch& rhs)
     {
-        m_name_list = rhs.m_name_list;
-        m_array_list = rhs.m_array_list;
-        init_array_map();
+        if (this != &rhs)
+        {
+            *this = record_batch(rhs);
+        }
         return *this;
     }
 
-- 
2.43.0


From a80f36252ea3ee0f427281ee621ac7eefcd184ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 86/95] fix: an array is unchanged when its assignment fails

---
 .../layout/dictionary_encoded_array.hpp        | 18 +++++++++++++-----
 .../sparrow/layout/list_layout/list_array.hpp  | 13 ++++++-------
 .../run_end_encoded_array.hpp                  |  6 +-----
 .../layout/struct_layout/struct_array.hpp      |  3 +--
 include/sparrow/layout/union_array.hpp         |  5 +----
 5 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/include/sparrow/layout/dictionary_encoded_array.hpp b/include/sparrow/layout/dictionary_encoded_array.hpp
index 3c9f4db..0c78bbc 100644
--- a/include/sparrow/layout/dictionary_encoded_array.hpp
+++ b/include/sparrow/layout/dictionary_encoded_array.hpp
@@ -196,9 +196,7 @@ namespace sparrow
     {
         if (this != &rhs)
         {
-            m_proxy = rhs.m_proxy;
-            m_keys_layout = create_keys_layout(m_proxy);
-            p_values_layout = create_values_layout(m_proxy);
+            *this = self_type(rhs);
         }
         return *this;
     }
@@ -218,8 +216,18 @@ namespace sparrow
         {
             using std::swap;
             swap(m_proxy, rhs.m_proxy);
-            m_keys_layout = create_keys_layout(m_proxy);
-            p_values_layout = create_values_layout(m_proxy);
+            try
+            {
+                keys_layout keys = create_keys_layout(m_proxy);
+                values_layout values = create_values_layout(m_proxy);
+                m_keys_layout = std::move(keys);
+                p_values_layout = std::move(values);
+            }
+            catch (...)
+            {
+                swap(m_proxy, rhs.m_proxy);
+                throw;
+            }
         }
         return *this;
     }
diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index 7eb8487..16438cd 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -402,8 +402,10 @@ namespace sparrow
     template <class DERIVED>
     auto list_array_crtp_base<DERIVED>::operator=(const self_type& rhs) -> self_type&
     {
-        base_type::operator=(rhs);
-        p_flat_array = make_flat_array();
+        if (this != &rhs)
+        {
+            *this = self_type(rhs);
+        }
         return *this;
     }
 
@@ -550,8 +552,7 @@ namespace sparrow
     {
         if (this != &rhs)
         {
-            base_type::operator=(rhs);
-            p_list_offsets = make_list_offsets();
+            *this = self_type(rhs);
         }
         return *this;
     }
@@ -643,9 +644,7 @@ namespace sparrow
     {
         if (this != &rhs)
         {
-            base_type::operator=(rhs);
-            p_list_offsets = make_list_offsets();
-            p_list_sizes = make_list_sizes();
+            *this = self_type(rhs);
         }
         return *this;
     }
diff --git a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
index ca777db..9099da8 100644
--- a/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
+++ b/include/sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp
@@ -149,11 +149,7 @@ namespace sparrow
     {
         if (this != &rhs)
         {
-            m_proxy = rhs.m_proxy;
-            m_encoded_length = rhs.m_encoded_length;
-            p_acc_lengths_array = array_factory(m_proxy.children()[0].view());
-            p_encoded_values_array = array_factory(m_proxy.children()[1].view());
-            m_acc_lengths = run_end_encoded_array::get_acc_lengths_ptr(*p_acc_lengths_array);
+            *this = self_type(rhs);
         }
         return *this;
     }
diff --git a/include/sparrow/layout/struct_layout/struct_array.hpp b/include/sparrow/layout/struct_layout/struct_array.hpp
index 611959f..e1b0bc8 100644
--- a/include/sparrow/layout/struct_layout/struct_array.hpp
+++ b/include/sparrow/layout/struct_layout/struct_array.hpp
@@ -137,8 +137,7 @@ namespace sparrow
     {
         if (this != &rhs)
         {
-            base_type::operator=(rhs);
-            m_children = make_children();
+            *this = struct_array(rhs);
         }
         return *this;
     }
diff --git a/include/sparrow/layout/union_array.hpp b/include/sparrow/layout/union_array.hpp
index 1162a2c..b331e6b 100644
--- a/include/sparrow/layout/union_array.hpp
+++ b/include/sparrow/layout/union_array.hpp
@@ -321,10 +321,7 @@ namespace sparrow
     {
         if (this != &rhs)
         {
-            m_proxy = rhs.m_proxy;
-            p_type_ids = reinterpret_cast<std::uint8_t*>(m_proxy.buffers()[0/*index of type-ids*/].data());
-            m_children = make_children(m_proxy);
-            m_type_id_map = parse_type_id_map(m_proxy.format());
+            *this = self_type(rhs);
         }
         return *this;
     }
-- 
2.43.0


From 49fbb19accef028edf36426b5223b1aa86b5e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 87/95] fix: the structures of an array are consistent when its
 modification fails

---
 include/sparrow/layout/mutable_array_base.hpp | 99 ++++++++++++-------
 1 file changed, 66 insertions(+), 33 deletions(-)

diff --git a/include/sparrow/layout/mutable_array_base.hpp b/include/sparrow/layout/mutable_array_base.hpp
index 254e702..d5f7626 100644
--- a/include/sparrow/layout/mutable_array_base.hpp
+++ b/include/sparrow/layout/mutable_array_base.hpp
@@ -115,13 +115,6 @@ namespace sparrow
                                                 return obj.has_value();
                                             }
                                         );
-            auto& derived = this->derived_cast();
-            derived.insert_bitmap(
-                sparrow::next(this->bitmap_cbegin(), distance),
-                validity_range.begin(),
-                validity_range.end()
-            );
-
             const auto value_range = std::ranges::subrange(first, last)
                                      | std::views::transform(
                                          [](const value_type& obj)
@@ -129,16 +122,23 @@ namespace sparrow
                                              return obj.get();
                                          }
                                      );
-            derived.insert_values(
-                sparrow::next(derived.value_cbegin(), distance),
-                value_range.begin(),
-                value_range.end()
-            );
             const difference_type count = std::distance(first, last);
-            // The following must be done after modifying the bitmap and values
-            this->get_arrow_proxy().set_length(this->size() + static_cast<size_t>(count));
-
-            derived.update();
+            modify(
+                this->size() + static_cast<size_t>(count),
+                [&](auto& derived)
+                {
+                    derived.insert_bitmap(
+                        sparrow::next(this->bitmap_cbegin(), distance),
+                        validity_range.begin(),
+                        validity_range.end()
+                    );
+                    derived.insert_values(
+                        sparrow::next(derived.value_cbegin(), distance),
+                        value_range.begin(),
+                        value_range.end()
+                    );
+                }
+            );
             return sparrow::next(this->begin(), distance);
         }
 
@@ -179,6 +179,13 @@ namespace sparrow
         bitmap_iterator bitmap_begin();
         bitmap_iterator bitmap_end();
 
+    private:
+
+        // Modifies the bitmap and the values of the array and sets its length afterwards. The
+        // structures describe an array of the former length if the modification fails.
+        template <class F>
+        void modify(size_type new_length, F&& modification);
+
         friend class layout_iterator<iterator_types>;
     };
 
@@ -253,11 +260,14 @@ namespace sparrow
     template <class D>
     void mutable_array_base<D>::resize(size_type new_length, const value_type& value)
     {
-        auto& derived = this->derived_cast();
-        derived.resize_bitmap(new_length, value.has_value());
-        derived.resize_values(new_length, value.get());
-        this->get_arrow_proxy().set_length(new_length);  // Must be done after resizing the bitmap and values
-        derived.update();
+        modify(
+            new_length,
+            [&](auto& derived)
+            {
+                derived.resize_bitmap(new_length, value.has_value());
+                derived.resize_values(new_length, value.get());
+            }
+        );
     }
 
     /**
@@ -287,12 +297,14 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos >= this->cbegin());
         SPARROW_ASSERT_TRUE(pos <= this->cend());
         const size_t distance = static_cast<size_t>(std::distance(this->cbegin(), pos));
-        auto& derived = this->derived_cast();
-        derived.insert_bitmap(sparrow::next(this->bitmap_cbegin(), distance), value.has_value(), count);
-        derived.insert_value(sparrow::next(derived.value_cbegin(), distance), value.get(), count);
-        this->get_arrow_proxy().set_length(this->size() + count);  // Must be done after resizing the bitmap
-                                                                   // and values
-        derived.update();
+        modify(
+            this->size() + count,
+            [&](auto& derived)
+            {
+                derived.insert_bitmap(sparrow::next(this->bitmap_cbegin(), distance), value.has_value(), count);
+                derived.insert_value(sparrow::next(derived.value_cbegin(), distance), value.get(), count);
+            }
+        );
         return sparrow::next(this->begin(), distance);
     }
 
@@ -342,12 +354,14 @@ namespace sparrow
             return sparrow::next(begin(), first_index);
         }
         const auto count = static_cast<size_t>(std::distance(first, last));
-        auto& derived = this->derived_cast();
-        derived.erase_bitmap(sparrow::next(this->bitmap_cbegin(), first_index), count);
-        derived.erase_values(sparrow::next(derived.value_cbegin(), first_index), count);
-        this->get_arrow_proxy().set_length(this->size() - count);  // Must be done after modifying the bitmap
-                                                                   // and values
-        derived.update();
+        modify(
+            this->size() - count,
+            [&](auto& derived)
+            {
+                derived.erase_bitmap(sparrow::next(this->bitmap_cbegin(), first_index), count);
+                derived.erase_values(sparrow::next(derived.value_cbegin(), first_index), count);
+            }
+        );
         return sparrow::next(begin(), first_index);
     }
 
@@ -356,6 +370,25 @@ namespace sparrow
      *
      * @param value The value o the element to append.
      */
+    template <class D>
+    template <class F>
+    void mutable_array_base<D>::modify(size_type new_length, F&& modification)
+    {
+        auto& derived = this->derived_cast();
+        try
+        {
+            modification(derived);
+        }
+        catch (...)
+        {
+            this->get_arrow_proxy().set_length(this->size());
+            derived.update();
+            throw;
+        }
+        this->get_arrow_proxy().set_length(new_length);  // Must be done after modifying the bitmap and values
+        derived.update();
+    }
+
     template <class D>
     void mutable_array_base<D>::push_back(const value_type& value)
     {
-- 
2.43.0


From d11085dceae1fedb121b59ce065c78aedd76ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 88/95] fix: a dictionary that cannot be set leaves the former
 one

---
 src/arrow_array_schema_proxy.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arrow_array_schema_proxy.cpp b/src/arrow_array_schema_proxy.cpp
index b9bc673..63a5d03 100644
--- a/src/arrow_array_schema_proxy.cpp
+++ b/src/arrow_array_schema_proxy.cpp
@@ -631,6 +631,11 @@ namespace sparrow
 
         arrow_array_private_data* array_private_data = get_array_private_data();
         arrow_schema_private_data* schema_private_data = get_schema_private_data();
+        std::unique_ptr<arrow_proxy> dictionary;
+        if (array_dictionary != nullptr && schema_dictionary != nullptr)
+        {
+            dictionary = std::make_unique<arrow_proxy>(array_dictionary, schema_dictionary);
+        }
         release_owned(array().dictionary, array_private_data->has_dictionary_ownership());
         release_owned(schema().dictionary, schema_private_data->has_dictionary_ownership());
 
@@ -639,7 +644,7 @@ namespace sparrow
         schema_private_data->set_dictionary_ownership(false);
         array().dictionary = array_dictionary;
         schema().dictionary = schema_dictionary;
-        update_dictionary();
+        m_dictionary = std::move(dictionary);
     }
 
     [[nodiscard]] bool arrow_proxy::is_created_with_sparrow() const
-- 
2.43.0


From ec275c24994218fcae045d766aea67c4d3da9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 89/95] fix: inserting strings that cannot be read leaves valid
 offsets

---
 .../variable_size_binary_array.hpp            | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index a1cebad..6d236bf 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -622,13 +622,19 @@ namespace sparrow
         auto& data_buffer = get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
         auto data_buffer_adaptor = make_buffer_adaptor<data_value_type>(data_buffer);
         auto values = std::ranges::subrange(first, last);
+        // Reading the values may throw, their sizes are required while the offsets are modified
+        std::vector<offset_type> sizes_of_each_value;
+        for (const T& value : values)
+        {
+            sizes_of_each_value.push_back(static_cast<offset_type>(value.size()));
+        }
         const size_t cumulative_sizes = std::accumulate(
-            values.begin(),
-            values.end(),
+            sizes_of_each_value.begin(),
+            sizes_of_each_value.end(),
             size_t(0),
-            [](size_t acc, const T& value)
+            [](size_t acc, offset_type size)
             {
-                return acc + value.size();
+                return acc + static_cast<size_t>(size);
             }
         );
         data_buffer_adaptor.resize(data_buffer_adaptor.size() + cumulative_sizes);
@@ -649,13 +655,6 @@ namespace sparrow
             std::advance(insert_pos, value.size());
         }
 
-        const auto sizes_of_each_value = std::ranges::views::transform(
-            values,
-            [](const T& value) -> offset_type
-            {
-                return static_cast<offset_type>(value.size());
-            }
-        );
         insert_offsets(sparrow::next(offset(idx), 1), sizes_of_each_value.begin(), sizes_of_each_value.end());
         return sparrow::next(value_begin(), idx);
     }
-- 
2.43.0


From 00df7d259e0cd10bb9c62b749a6bbe16fe474926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 90/95] fix: reading a null element of a binary view array does
 not follow its view

---
 include/sparrow/layout/variable_size_binary_view_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 9125b26..ef27d52 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -325,6 +325,11 @@ namespace sparrow
             const auto ret =  inner_const_reference(ptr + data_offset, length);
             return ret;
         }
+        else if (!this->has_value(i))
+        {
+            // The view of a null element is unspecified, it may not refer to any data
+            return inner_const_reference{};
+        }
         else
         {
             constexpr std::ptrdiff_t buffer_index_offset = 8;
-- 
2.43.0


From feebc68724b06ef9d169a0918f22ad3f941a2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:58 +0000
Subject: [PATCH 91/95] fix: building from a range that can be read only once
 keeps its elements

---
 .../buffer/dynamic_bitset/dynamic_bitset.hpp  |  3 ++-
 include/sparrow/buffer/u8_buffer.hpp          | 15 +++++++++--
 include/sparrow/builder/builder.hpp           |  6 +++++
 include/sparrow/layout/layout_utils.hpp       |  5 ++--
 include/sparrow/layout/primitive_array.hpp    | 16 +++---------
 .../variable_size_binary_array.hpp            | 11 +++++---
 .../variable_size_binary_view_array.hpp       |  7 +++---
 include/sparrow/utils/ranges.hpp              | 25 +++++++++++++++++++
 8 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
index 87f4639..01abe10 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp
@@ -142,16 +142,17 @@ namespace sparrow
         requires(std::same_as<std::ranges::range_value_t<R>, bool>)
         validity_bitmap ensure_validity_bitmap_impl(std::size_t size, R&& range)
         {   
-            SPARROW_ASSERT_TRUE(size == range_size(range) || range_size(range) == 0);
             validity_bitmap bitmap(size, true);
             std::size_t i = 0;
             for(auto value : range)
             {
+                SPARROW_ASSERT_TRUE(i < size);
                 if(!value){
                     bitmap.set(i, false);
                 }
                 i++;
             }
+            SPARROW_ASSERT_TRUE(i == size || i == 0);
             return bitmap;
         }
 
diff --git a/include/sparrow/buffer/u8_buffer.hpp b/include/sparrow/buffer/u8_buffer.hpp
index 4c3e2f3..704c35f 100644
--- a/include/sparrow/buffer/u8_buffer.hpp
+++ b/include/sparrow/buffer/u8_buffer.hpp
@@ -109,10 +109,21 @@ namespace sparrow
     template<std::ranges::input_range R>
     requires(!std::same_as<u8_buffer<T>, std::decay_t<R>> && std::convertible_to<std::ranges::range_value_t<R>, T>)
     u8_buffer<T>::u8_buffer(R&& range)
-        : holder_type{range_size(range)* sizeof(T)}
+        : holder_type{(single_pass_range<R> ? std::size_t(0) : range_size(range)) * sizeof(T)}
         ,buffer_adaptor_type(holder_type::value)
     {
-        std::ranges::copy(range, this->begin());
+        if constexpr (single_pass_range<R>)
+        {
+            // Counting the elements would consume them
+            for (auto && value : range)
+            {
+                this->push_back(static_cast<T>(value));
+            }
+        }
+        else
+        {
+            std::ranges::copy(range, this->begin());
+        }
     }
 
     template<class T>
diff --git a/include/sparrow/builder/builder.hpp b/include/sparrow/builder/builder.hpp
index cb1632e..2bc669d 100644
--- a/include/sparrow/builder/builder.hpp
+++ b/include/sparrow/builder/builder.hpp
@@ -81,6 +81,12 @@ auto build(T&& t, OPTION_FLAGS&& ... )
     {
         static_assert(mpl::dependent_false<T>::value, "toplevel type must not be nullable");
     }
+    else if constexpr(single_pass_range<T>)
+    {
+        // the elements are read several times
+        using values_type = std::vector<std::ranges::range_value_t<T>>;
+        return detail::builder<values_type, layout_policy, option_flags_type>::create(ensure_multi_pass(std::forward<T>(t)));
+    }
     else
     {
         return detail::builder<T, layout_policy, option_flags_type>::create(std::forward<T>(t)); 
diff --git a/include/sparrow/layout/layout_utils.hpp b/include/sparrow/layout/layout_utils.hpp
index 8dddff6..78ac180 100644
--- a/include/sparrow/layout/layout_utils.hpp
+++ b/include/sparrow/layout/layout_utils.hpp
@@ -80,11 +80,12 @@ namespace sparrow::detail
     requires(std::unsigned_integral<std::ranges::range_value_t<SIZES_RANGE>>)
     sparrow::u8_buffer<OFFSET_TYPE> offset_buffer_from_sizes(SIZES_RANGE && sizes)
     {
-        sparrow::u8_buffer<OFFSET_TYPE> buffer( range_size(sizes) + 1);
+        auto&& elements = ensure_multi_pass(std::forward<SIZES_RANGE>(sizes));
+        sparrow::u8_buffer<OFFSET_TYPE> buffer( range_size(elements) + 1);
 
         OFFSET_TYPE offset = 0;
         auto it = buffer.begin();
-        for(auto size : sizes)
+        for(auto size : elements)
         {
             *it = offset;
             offset += static_cast<OFFSET_TYPE>(size);
diff --git a/include/sparrow/layout/primitive_array.hpp b/include/sparrow/layout/primitive_array.hpp
index f927081..339c8f6 100644
--- a/include/sparrow/layout/primitive_array.hpp
+++ b/include/sparrow/layout/primitive_array.hpp
@@ -318,16 +318,7 @@ namespace sparrow
         requires std::convertible_to<std::ranges::range_value_t<R>, T>
     arrow_proxy primitive_array<T>::create_proxy(R&& range)
     {
-        const std::size_t n = range_size(range);
-        const auto iota = std::ranges::iota_view{std::size_t(0), n};
-        std::ranges::transform_view iota_to_is_non_missing(
-            iota,
-            [](std::size_t)
-            {
-                return true;
-            }
-        );
-        return self_type::create_proxy(std::forward<R>(range), std::move(iota_to_is_non_missing));
+        return self_type::create_proxy(std::forward<R>(range), validity_bitmap{});
     }
 
     // range of nullable values
@@ -337,14 +328,15 @@ namespace sparrow
     arrow_proxy primitive_array<T>::create_proxy(R&& range)
     {
         // split into values and is_non_null ranges
-        auto values = range
+        auto&& elements = ensure_multi_pass(std::forward<R>(range));
+        auto values = elements
                       | std::views::transform(
                           [](const auto& v)
                           {
                               return v.get();
                           }
                       );
-        auto is_non_null = range
+        auto is_non_null = elements
                            | std::views::transform(
                                [](const auto& v)
                                {
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 6d236bf..70ebaa7 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -29,6 +29,7 @@
 #include "sparrow/layout/layout_utils.hpp"
 #include "sparrow/layout/variable_size_binary_layout/variable_size_binary_iterator.hpp"
 #include "sparrow/layout/variable_size_binary_layout/variable_size_binary_reference.hpp"
+#include "sparrow/utils/ranges.hpp"
 #include "sparrow/utils/repeat_container.hpp"
 
 namespace sparrow
@@ -357,7 +358,8 @@ namespace sparrow
     {
         using values_inner_value_type = std::ranges::range_value_t<std::ranges::range_value_t<R>>;
 
-        auto size_range = values
+        auto&& elements = ensure_multi_pass(std::forward<R>(values));
+        auto size_range = elements
                           | std::views::transform(
                               [](const auto& v)
                               {
@@ -365,7 +367,7 @@ namespace sparrow
                               }
                           );
         auto offset_buffer = offset_from_sizes(size_range);
-        auto data_buffer = u8_buffer<values_inner_value_type>(std::ranges::views::join(values));
+        auto data_buffer = u8_buffer<values_inner_value_type>(std::ranges::views::join(elements));
         return create_proxy(std::move(data_buffer), std::move(offset_buffer), std::forward<VB>(validity_input));
     }
 
@@ -375,14 +377,15 @@ namespace sparrow
     arrow_proxy variable_size_binary_array_impl<T, CR, OT>::create_proxy(R&& range)
     {
         // split into values and is_non_null ranges
-        const auto values = range
+        auto&& elements = ensure_multi_pass(std::forward<R>(range));
+        const auto values = elements
                       | std::views::transform(
                           [](const auto& v)
                           {
                               return v.get();
                           }
                       );
-        const auto is_non_null = range
+        const auto is_non_null = elements
                            | std::views::transform(
                                [](const auto& v)
                                {
diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index ef27d52..9fb5902 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -191,7 +191,8 @@ namespace sparrow
         #    pragma GCC diagnostic ignored "-Wcast-align"
         #endif
 
-        const auto size = range_size(range);
+        auto&& values = ensure_multi_pass(std::forward<R>(range));
+        const auto size = range_size(values);
         validity_bitmap vbitmap = ensure_validity_bitmap(size, std::forward<VB>(validity_input));
         const auto null_count = vbitmap.null_count();
 
@@ -199,7 +200,7 @@ namespace sparrow
           
         std::size_t long_string_storage_size = 0;
         std::size_t i = 0;
-        for(auto && val : range)
+        for(auto && val : values)
         {   
             auto val_casted = val | std::ranges::views::transform([](const auto& v) { 
                 return static_cast<std::uint8_t>(v);
@@ -237,7 +238,7 @@ namespace sparrow
         // write the long string storage
         buffer<uint8_t> long_string_storage(long_string_storage_size);
         std::size_t long_string_storage_offset = 0;
-        for(auto && val : range)
+        for(auto && val : values)
         {
             const auto length = val.size();
             if(length > SHORT_STRING_SIZE)
diff --git a/include/sparrow/utils/ranges.hpp b/include/sparrow/utils/ranges.hpp
index 4d90dcb..3af3048 100644
--- a/include/sparrow/utils/ranges.hpp
+++ b/include/sparrow/utils/ranges.hpp
@@ -14,6 +14,8 @@
 #pragma once
 
 #include <ranges>
+#include <utility>
+#include <vector>
 
 namespace sparrow
 {   
@@ -31,4 +33,27 @@ namespace sparrow
         return static_cast<std::size_t>(std::ranges::distance(r));
     }
 
+    /// Ranges whose elements may be readable only once
+    template<class R>
+    concept single_pass_range = std::ranges::input_range<R> && !std::ranges::forward_range<R>;
+
+    /// @returns \c r, or a copy of its elements if they may be readable only once
+    template<std::ranges::input_range R>
+    decltype(auto) ensure_multi_pass(R && r)
+    {
+        if constexpr (single_pass_range<R>)
+        {
+            std::vector<std::ranges::range_value_t<R>> values;
+            for (auto && value : r)
+            {
+                values.push_back(std::forward<decltype(value)>(value));
+            }
+            return values;
+        }
+        else
+        {
+            return std::forward<R>(r);
+        }
+    }
+
 };
\ No newline at end of file
-- 
2.43.0


From 5fc6f5c635a700e0c66ff45c5cf7f9adcb0849bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:08 +0000
Subject: [PATCH 92/95] fix: the null count of a bitset of more than 2^31 bits

---
 .../sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index 6a7b54d..e14d937 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -444,21 +444,21 @@ namespace sparrow
             return 0u;
         }
 
-        int res = 0;
+        size_type res = 0;
         size_t full_blocks = m_size / s_bits_per_block;
         for (size_t i = 0; i < full_blocks; ++i)
         {
-            res += std::popcount(buffer().data()[i]);
+            res += static_cast<size_type>(std::popcount(buffer().data()[i]));
         }
         if (full_blocks != buffer().size())
         {
             const size_t bits_count = m_size % s_bits_per_block;
             const block_type mask = ~block_type(~block_type(0) << bits_count);
             const block_type block = buffer().data()[full_blocks] & mask;
-            res += std::popcount(block);
+            res += static_cast<size_type>(std::popcount(block));
         }
 
-        return static_cast<size_t>(res);
+        return res;
     }
 
     template <typename B>
-- 
2.43.0


From f98ffc0c4a6753344640fde8a7236e2e9c72339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 93/95] fix: sizes which exceed the memory are refused by
 buffers and bitsets

---
 include/sparrow/buffer/buffer_adaptor.hpp     | 22 ++++++++++++++-----
 .../dynamic_bitset/dynamic_bitset_base.hpp    |  5 +++++
 include/sparrow/buffer/u8_buffer.hpp          | 17 ++++++++++++--
 3 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/sparrow/buffer/buffer_adaptor.hpp b/include/sparrow/buffer/buffer_adaptor.hpp
index 7c61054..965e8ba 100644
--- a/include/sparrow/buffer/buffer_adaptor.hpp
+++ b/include/sparrow/buffer/buffer_adaptor.hpp
@@ -16,6 +16,7 @@
 
 #include <cmath>
 #include <ranges>
+#include <stdexcept>
 #include <type_traits>
 #include <vector>
 
@@ -170,6 +171,17 @@ namespace sparrow
             return idx * m_to_from_size_ratio;
         }
 
+        // The number of elements of the buffer required to store \c count values
+        [[nodiscard]] constexpr std::remove_cvref_t<buffer_reference>::size_type size_for_buffer(size_type count
+        ) const
+        {
+            if (count > m_max_size)
+            {
+                throw std::length_error("the size exceeds the maximum size of the buffer adaptor");
+            }
+            return count * m_to_from_size_ratio;
+        }
+
         [[nodiscard]] std::remove_cvref_t<buffer_reference>::const_iterator
         get_buffer_reference_iterator(const_iterator pos)
         {
@@ -427,7 +439,7 @@ namespace sparrow
     constexpr void buffer_adaptor<To, FromBufferRef>::reserve(size_type new_cap)
         requires(not is_const)
     {
-        m_buffer.reserve(new_cap * m_to_from_size_ratio);
+        m_buffer.reserve(size_for_buffer(new_cap));
     }
 
     template <typename To, BufferReference<To> FromBufferRef>
@@ -477,7 +489,7 @@ namespace sparrow
         const auto buffer_pos = get_buffer_reference_iterator(pos);
         // value may refer to an element of the buffer
         const value_type copy = value;
-        m_buffer.insert(buffer_pos, count * m_to_from_size_ratio, 0);
+        m_buffer.insert(buffer_pos, size_for_buffer(count), 0);
         for (size_type i = 0; i < count; ++i)
         {
             data()[static_cast<size_t>(index) + i] = copy;
@@ -510,7 +522,7 @@ namespace sparrow
             const difference_type index = std::distance(cbegin(), pos);
             const difference_type count = std::distance(first, last);
             const auto buffer_pos = get_buffer_reference_iterator(pos);
-            m_buffer.insert(buffer_pos, static_cast<size_type>(count) * m_to_from_size_ratio, 0);
+            m_buffer.insert(buffer_pos, size_for_buffer(static_cast<size_type>(count)), 0);
             std::copy(first, last, data() + index);
             return std::next(begin(), index);
         }
@@ -612,7 +624,7 @@ namespace sparrow
     constexpr void buffer_adaptor<To, FromBufferRef>::resize(size_type new_size)
         requires(not is_const)
     {
-        const size_type new_size_for_buffer = index_for_buffer(new_size);
+        const size_type new_size_for_buffer = size_for_buffer(new_size);
         m_buffer.resize(new_size_for_buffer);
     }
 
@@ -622,7 +634,7 @@ namespace sparrow
         requires(not is_const)
     {
         const size_type original_size = size();
-        const size_type new_size_for_buffer = index_for_buffer(new_size);
+        const size_type new_size_for_buffer = size_for_buffer(new_size);
         // value may refer to an element of the buffer
         const value_type copy = value;
         m_buffer.resize(new_size_for_buffer, 0);
diff --git a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
index e14d937..e21499a 100644
--- a/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
+++ b/include/sparrow/buffer/dynamic_bitset/dynamic_bitset_base.hpp
@@ -15,6 +15,7 @@
 #pragma once
 
 
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
@@ -552,6 +553,10 @@ namespace sparrow
         SPARROW_ASSERT_TRUE(pos <= cend());
         const auto index = static_cast<size_type>(std::distance(cbegin(), pos));
         const size_type old_size = size();
+        if (count > std::numeric_limits<size_type>::max() - old_size)
+        {
+            throw std::length_error("dynamic_bitset::insert called with a count that exceeds the maximum size");
+        }
         const size_type new_size = old_size + count;
 
         // TODO: The current implementation is not efficient. It can be improved.
diff --git a/include/sparrow/buffer/u8_buffer.hpp b/include/sparrow/buffer/u8_buffer.hpp
index 704c35f..e97411c 100644
--- a/include/sparrow/buffer/u8_buffer.hpp
+++ b/include/sparrow/buffer/u8_buffer.hpp
@@ -15,7 +15,9 @@
 #pragma once
 
 #include <cmath>
+#include <limits>
 #include <ranges>
+#include <stdexcept>
 #include <type_traits>
 
 #include "sparrow/utils/ranges.hpp"
@@ -27,6 +29,17 @@ namespace sparrow
 
     namespace detail
     {
+        // The number of bytes required to store \c count elements
+        template <class T>
+        [[nodiscard]] constexpr std::size_t byte_count(std::size_t count)
+        {
+            if (count > std::numeric_limits<std::size_t>::max() / sizeof(T))
+            {
+                throw std::length_error("cannot create buffer larger than max_size()");
+            }
+            return count * sizeof(T);
+        }
+
         template<class T>
         class holder
         {
@@ -98,7 +111,7 @@ namespace sparrow
 
     template<class T>
     u8_buffer<T>::u8_buffer(std::size_t n, const T & val)
-        : holder_type{n * sizeof(T)}
+        : holder_type{detail::byte_count<T>(n)}
         , buffer_adaptor_type(holder_type::value)
     {
         std::fill(this->begin(), this->end(), val);
@@ -109,7 +122,7 @@ namespace sparrow
     template<std::ranges::input_range R>
     requires(!std::same_as<u8_buffer<T>, std::decay_t<R>> && std::convertible_to<std::ranges::range_value_t<R>, T>)
     u8_buffer<T>::u8_buffer(R&& range)
-        : holder_type{(single_pass_range<R> ? std::size_t(0) : range_size(range)) * sizeof(T)}
+        : holder_type{detail::byte_count<T>(single_pass_range<R> ? std::size_t(0) : range_size(range))}
         ,buffer_adaptor_type(holder_type::value)
     {
         if constexpr (single_pass_range<R>)
-- 
2.43.0


From 4c81713d7671dd39c165719142ad4faa14722fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:43 +0000
Subject: [PATCH 94/95] fix: data which the offsets or views of a layout cannot
 represent are refused

---
 include/sparrow/layout/layout_utils.hpp       |  8 +++++++
 .../variable_size_binary_array.hpp            | 23 +++++++++++++++++++
 .../variable_size_binary_view_array.hpp       |  9 ++++++++
 3 files changed, 40 insertions(+)

diff --git a/include/sparrow/layout/layout_utils.hpp b/include/sparrow/layout/layout_utils.hpp
index 78ac180..7905082 100644
--- a/include/sparrow/layout/layout_utils.hpp
+++ b/include/sparrow/layout/layout_utils.hpp
@@ -14,6 +14,10 @@
 
 #pragma once
 
+#include <limits>
+#include <stdexcept>
+#include <utility>
+
 #include "sparrow/utils/ranges.hpp"
 #include "sparrow/utils/functor_index_iterator.hpp"
 #include "sparrow/buffer/u8_buffer.hpp"
@@ -88,6 +92,10 @@ namespace sparrow::detail
         for(auto size : elements)
         {
             *it = offset;
+            if (std::cmp_greater(size, std::numeric_limits<OFFSET_TYPE>::max() - offset))
+            {
+                throw std::overflow_error("the offsets cannot represent the sum of the sizes");
+            }
             offset += static_cast<OFFSET_TYPE>(size);
             ++it;
         }
diff --git a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
index 70ebaa7..df9432b 100644
--- a/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp
@@ -16,8 +16,10 @@
 
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <ranges>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -258,6 +260,9 @@ namespace sparrow
             requires mpl::convertible_ranges<U, T>
         value_iterator insert_value(const_value_iterator pos, U value, size_type count);
 
+        // Throws if the offsets cannot represent \c count additional values of \c value_size bytes.
+        void check_added_data_size(size_type value_size, size_type count) const;
+
         offset_iterator insert_offset(const_offset_iterator pos, offset_type size, size_type count);
 
         template <mpl::iterator_of_type<T> InputIt>
@@ -421,6 +426,10 @@ namespace sparrow
         const auto initial_value_length = offset_end - offset_beg;
         // rhs may refer to the data of this array, which is about to be moved
         const std::vector<std::ranges::range_value_t<U>> new_value(std::ranges::begin(rhs), std::ranges::end(rhs));
+        if (std::cmp_greater(new_value.size(), initial_value_length))
+        {
+            check_added_data_size(new_value.size() - static_cast<size_type>(initial_value_length), 1u);
+        }
         const auto new_value_length = static_cast<OT>(new_value.size());
         const OT shift_byte_count = new_value_length - initial_value_length;
         auto& data_buffer = this->get_arrow_proxy().get_array_private_data()->buffers()[DATA_BUFFER_INDEX];
@@ -576,6 +585,7 @@ namespace sparrow
     {
         const auto idx = static_cast<size_t>(std::distance(value_cbegin(), pos));
         const OT offset_begin = *offset(idx);
+        check_added_data_size(std::ranges::size(value), count);
         const std::vector<uint8_t> casted_value{value.cbegin(), value.cend()};
         const repeat_view<std::vector<uint8_t>> my_repeat_view{casted_value, count};
         const auto joined_repeated_value_range = std::ranges::views::join(my_repeat_view);
@@ -586,6 +596,16 @@ namespace sparrow
         return sparrow::next(value_begin(), idx);
     }
 
+    template <std::ranges::sized_range T, class CR, layout_offset OT>
+    void variable_size_binary_array_impl<T, CR, OT>::check_added_data_size(size_type value_size, size_type count) const
+    {
+        const auto available = static_cast<std::uint64_t>(std::numeric_limits<OT>::max() - *offset(this->size()));
+        if (value_size != 0 && count > available / value_size)
+        {
+            throw std::overflow_error("the offsets of the array cannot represent the size of its data");
+        }
+    }
+
     template <std::ranges::sized_range T, class CR, layout_offset OT>
     auto variable_size_binary_array_impl<T, CR, OT>::insert_offset(
         const_offset_iterator pos,
@@ -627,8 +647,11 @@ namespace sparrow
         auto values = std::ranges::subrange(first, last);
         // Reading the values may throw, their sizes are required while the offsets are modified
         std::vector<offset_type> sizes_of_each_value;
+        size_t added_size = 0;
         for (const T& value : values)
         {
+            added_size += value.size();
+            check_added_data_size(added_size, 1u);
             sizes_of_each_value.push_back(static_cast<offset_type>(value.size()));
         }
         const size_t cumulative_sizes = std::accumulate(
diff --git a/include/sparrow/layout/variable_size_binary_view_array.hpp b/include/sparrow/layout/variable_size_binary_view_array.hpp
index 9fb5902..505ca8d 100644
--- a/include/sparrow/layout/variable_size_binary_view_array.hpp
+++ b/include/sparrow/layout/variable_size_binary_view_array.hpp
@@ -15,7 +15,10 @@
 #pragma once
 
 #include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <ranges>
+#include <stdexcept>
 
 #include "sparrow/arrow_interface/arrow_array.hpp"
 #include "sparrow/arrow_interface/arrow_schema.hpp"
@@ -198,6 +201,8 @@ namespace sparrow
 
         buffer<uint8_t> length_buffer(size * DATA_BUFFER_SIZE);
           
+        // The lengths and the offsets of the views are 32-bit integers
+        constexpr auto max_length = static_cast<std::size_t>(std::numeric_limits<std::int32_t>::max());
         std::size_t long_string_storage_size = 0;
         std::size_t i = 0;
         for(auto && val : values)
@@ -207,6 +212,10 @@ namespace sparrow
             });
 
             const auto length = val.size();
+            if (length > max_length || (length > SHORT_STRING_SIZE && long_string_storage_size > max_length))
+            {
+                throw std::overflow_error("the views cannot represent the size of the data");
+            }
             auto length_ptr = length_buffer.data() + (i * DATA_BUFFER_SIZE);
 
             // write length
-- 
2.43.0


From 18752a9562ac46177d77a7b7800cad86a0ba7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 95/95] fix: a fixed size list array of lists of size 0 is
 refused instead of dividing by zero

---
 include/sparrow/layout/list_layout/list_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sparrow/layout/list_layout/list_array.hpp b/include/sparrow/layout/list_layout/list_array.hpp
index 16438cd..a27a6d6 100644
--- a/include/sparrow/layout/list_layout/list_array.hpp
+++ b/include/sparrow/layout/list_layout/list_array.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <stdexcept>
 #include <string>  // for std::stoull
 #include <type_traits> 
 
@@ -709,6 +710,10 @@ namespace sparrow
         R && validity_input 
     )
     {
+        if (list_size == 0)
+        {
+            throw std::invalid_argument("the size of a fixed_sized_list_array cannot be deduced from lists of size 0");
+        }
         const auto size = flat_values.size() / static_cast<std::size_t>(list_size);
         auto vbitmap = ensure_validity_bitmap(size, std::forward<R>(validity_input));
 
-- 
2.43.0

