From 7f97f1eb22655ae9b405e83f8e786864952948c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 01/67] fix: length of a variable-length binary that is not a
 multiple of four bytes

---
 fast_positive/tuples/details/field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index 5a05fb2..bc47cca 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -121,7 +121,7 @@ union stretchy_value_varbin {
     static_assert(8 - genus_bitness == 3, "Oops");
     const std::size_t tailbytes = reserved14_tailbytes & 3;
     constexpr_assert(brutto_units > 1 || tailbytes == 0);
-    return units2bytes(brutto_units) - 4 + tailbytes;
+    return units2bytes(brutto_units - 1) - ((4 - tailbytes) & 3);
   }
 
   static std::size_t estimate_space(const string_view &value) {
-- 
2.43.0


From 6f6cb83f1af2a18c70533733f53e592172ef40f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 02/67] fix: accessor of a preplaced field reported existence
 inverted

---
 fast_positive/tuples/details/getter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 725e281..83d8bdc 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -211,7 +211,7 @@ public:
 
   cxx11_constexpr bool exist() const cxx11_noexcept {
     return token_.is_preplaced()
-               ? static_cast<const field_preplaced *>(field_)->is_null(
+               ? !static_cast<const field_preplaced *>(field_)->is_null(
                      token_.tag())
                : field_ != nullptr;
   }
-- 
2.43.0


From 034df089fbdff1925d628d51fbb4c780a474bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:49 +0000
Subject: [PATCH 03/67] fix: netto_size() subtracted junk units instead of
 bytes

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 5590fdb..39bab31 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1128,7 +1128,7 @@ public: //----------------------------------------------------------------------
     return units2bytes(tail_ - head_ + /* header */ 1);
   }
   __pure_function std::size_t netto_size() const cxx11_noexcept {
-    return brutto_size() - junk_units();
+    return brutto_size() - junk_bytes();
   }
   __pure_function std::size_t capacity() const cxx11_noexcept {
     return units2bytes(end_);
-- 
2.43.0


From 74cbcf900ae5c04f6e4e4717511442ddd7110a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:49 +0000
Subject: [PATCH 04/67] fix: index sorting of a tuple wrote twice the index
 length

---
 src/gear.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index c8b921f..d13ab2d 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -920,7 +920,8 @@ bool gear::sort(onstack_allocation_arena &onstack_arena) {
     return false;
   }
 
-  sort_vector vector(index_size(), onstack_arena);
+  sort_vector vector(onstack_arena);
+  vector.reserve(index_size());
   const unit_t *const basis = &area_[head_];
   /* заполняем вектор */
   for (field_loose *loose = begin_index(); loose < end_index(); ++loose)
-- 
2.43.0


From 7bdf75d0d3ac17aa2a489552c8c33a9326aee038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:19 +0000
Subject: [PATCH 05/67] fix: compactify mishandled absent stretchy fields and
 was not safe on allocation failure

---
 src/gear.cxx | 69 +++++++++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index d13ab2d..d781944 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -761,26 +761,43 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
    *  - эти ДВА ШАГА взаимосвязаны и не могут выполняться по-отдельности
    *    или в другом порядке! */
 
-  int moveable_count = -1 /* счетчик потенциально перемещаемых элементов для
-                               оценки требуемого размера вектора */
-      ;
+  /* Вектор выделяется до каких-либо изменений, чтобы при нехватке памяти кортеж
+   * остался нетронутым. */
+  compact_vector vector(onstack_arena);
+  if (junk_.volume) {
+    /* считаем требуемый размер вектора подсчитывая перемещаемые элементы */
+    std::size_t moveable_count = 0;
+    /* TODO: SIMD */
+    for (const field_loose *loose = begin_index(); loose < end_index(); ++loose)
+      moveable_count += !loose->is_hole() && !is_inplaced(loose->type()) &&
+                        loose->relative.have_payload();
+    if (schema_) {
+      for (const token &ident : schema_->tokens()) {
+        if (!ident.is_preplaced())
+          break;
+        if (!is_fixed_size(ident.type())) {
+          const field_preplaced *const preplaced =
+              erthink::constexpr_pointer_cast<const field_preplaced *>(
+                  begin_data_bytes() + ident.preplaced_offset());
+          moveable_count += preplaced->relative.have_payload();
+        }
+      }
+    }
+    vector.reserve(moveable_count);
+  }
 
   /* LY: при необходимости сначала убираем дырки/зазоры из индекса */
   if (junk_.count) {
     debug_check();
     field_loose *src, *dst;
-    /* копируем индекс пропуская дырки, одновременно подсчитываем перемещаемые
-     * элементы для оценки размера вектора */
-    moveable_count = 0;
+    /* копируем индекс пропуская дырки */
     for (src = dst = end_index() - 1; src >= begin_index(); --src) {
       /* TODO: SIMD? */
       if (src->is_hole())
         continue;
-      moveable_count +=
-          !is_inplaced(src->type()) && src->relative.have_payload();
       if (src != dst) {
         dst->loose_header = src->loose_header;
-        if (!is_inplaced(src->type()))
+        if (!is_inplaced(dst->type()) && dst->relative.have_payload())
           dst->relative.sub_delta(dst - src);
       }
       --dst;
@@ -788,7 +805,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
     assert(dst - src == junk_.count);
     assert(dst + 1 == begin_index() + junk_.count);
     assert(src + 1 == begin_index());
-    assert(dst > erthink::constexpr_pointer_cast<field_loose *>(area_) &&
+    assert(dst >= erthink::constexpr_pointer_cast<field_loose *>(area_) &&
            dst < end_index());
     head_ += junk_.count;
     junk_.count = 0;
@@ -798,33 +815,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
 
   /* теперь при необходимости дефрагментируем данные */
   if (junk_.volume) {
-    /* считаем требуемый размер вектора подсчитывая перемещаемые элементы */
-    if (moveable_count < 0) {
-      moveable_count = 0;
-      /* TODO: SIMD */
-      for (field_loose *loose = begin_index(); loose < end_index(); ++loose) {
-        assert(!loose->is_hole());
-        moveable_count +=
-            !is_inplaced(loose->type()) && loose->relative.have_payload();
-      }
-    }
-    if (schema_) {
-      for (const token &ident : schema_->tokens()) {
-        if (!ident.is_preplaced())
-          break;
-        if (!is_fixed_size(ident.type())) {
-          const field_preplaced *const preplaced =
-              erthink::constexpr_pointer_cast<const field_preplaced *>(
-                  begin_data_bytes() + ident.preplaced_offset());
-          moveable_count += preplaced->relative.have_payload();
-        }
-      }
-    }
-    assert(moveable_count > 0);
-
     /* заполняем вектор описаниями чанков данных */
-    compact_vector vector(onstack_arena);
-    vector.reserve(moveable_count);
     const unit_t *const basis = &area_[head_];
     if (schema_) {
       for (const token &ident : schema_->tokens()) {
@@ -832,7 +823,8 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
           const field_preplaced *const preplaced =
               erthink::constexpr_pointer_cast<const field_preplaced *>(
                   begin_data_bytes() + ident.preplaced_offset());
-          vector.emplace_back(basis, ident.type(), preplaced);
+          if (preplaced->relative.have_payload())
+            vector.emplace_back(basis, ident.type(), preplaced);
         }
       }
     }
@@ -844,7 +836,6 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
         vector.emplace_back(basis, loose);
       }
     }
-    assert(vector.size() == (size_t)moveable_count);
 
     /* сортируем в порядке возрастания адресов/смещений */
     std::sort(vector.begin(), vector.end(),
@@ -856,7 +847,7 @@ inline void gear::compactify(onstack_allocation_arena &onstack_arena) {
     unit_t *dst = const_cast<unit_t *>(begin_data_units());
     if (schema_) {
       dst += schema_->preplaced_units();
-      assert(dst < end_data_units());
+      assert(dst <= end_data_units());
     }
     for (const auto &chunk : vector) {
       const unit_t *const src = chunk.payload(basis);
-- 
2.43.0


From 144f4d70c2af311fa97425853911987cb9f735c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:39 +0000
Subject: [PATCH 06/67] fix: a partially used gap was left pointing at the
 wrong place

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index d781944..a086e3a 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -297,7 +297,7 @@ field_loose *gear::alloc_loose(const tag_t tag, unsigned units) {
   field_loose *loose = index_alloc(units);
   loose->genus_and_id = uint16_t(tag);
   loose->relative.set_payload(hole->hole_begin());
-  hole->relative.add_delta(excess);
+  hole->relative.add_delta(units);
   hole->hole_set_units(excess);
   junk_.volume -= uint16_t(units);
   mark_unsorted();
-- 
2.43.0


From a8e1d2cd62d178e4a723fa2f3d219c475dd4a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:39 +0000
Subject: [PATCH 07/67] fix: an exchanged chunk at the end of data was not
 returned to the free space

---
 src/gear.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index a086e3a..b4620c4 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -588,7 +588,7 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       junk_.volume += uint16_t(have - needed);
 
       /* если дырка примыкает к концу данных, то её нужно "испарить" */
-      if (chunk == end_data_units()) {
+      if (chunk + have == end_data_units()) {
         /* возвращем место в нераспределенное */
         tail_ -= have;
         junk_.volume -= uint16_t(have);
-- 
2.43.0


From d97eae7f0173e8abf0fc8353cc250b77abeeb3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:39 +0000
Subject: [PATCH 08/67] fix: a refused release of data left the free-space
 accounting broken

---
 src/gear.cxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/gear.cxx b/src/gear.cxx
index b4620c4..f27baae 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -389,6 +389,13 @@ gear::release_data(relative_payload *chunk, unsigned units,
     return nullptr;
   }
 
+  if (hole0 == nullptr && before_after.first == nullptr &&
+      before_after.second == nullptr) {
+    /* потребуется новая дырка, а тут может выскочить исключение */
+    hole0 = index_alloc(0);
+    junk_.count += 1;
+  }
+
   /* добавляем в счетчики, чтобы прошли проверки внутри merge и trim */
   junk_.volume += uint16_t(units);
 
@@ -413,12 +420,8 @@ gear::release_data(relative_payload *chunk, unsigned units,
     /* не нашлось соседних дырок для объединения с куском */
     assert(chunk->flat + units != end_data_units());
     /* кусок НЕ может примыкать к концу данных, оформляем дыркой */
-    if (hole0 == nullptr) {
-      hole0 = index_alloc(0);
-      junk_.count += 1;
-    }
-    hole0->hole_set_units(units);
     hole0->relative.set_payload(chunk);
+    hole0->hole_set_units(units);
     return hole0;
   }
   /* кусок был слит с соседней дыркой */
-- 
2.43.0


From 3bb8cbc1cab44f25bed30fe4112c02eac62b9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:48 +0000
Subject: [PATCH 09/67] fix: gaps larger than 2047 units overflowed the field
 descriptor

---
 fast_positive/tuples/details/field.h | 13 ++++++++++++-
 src/audit.cxx                        |  6 ++++++
 src/gear.cxx                         | 25 +++++++++++++++++--------
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/fast_positive/tuples/details/field.h b/fast_positive/tuples/details/field.h
index bc47cca..914517d 100644
--- a/fast_positive/tuples/details/field.h
+++ b/fast_positive/tuples/details/field.h
@@ -425,11 +425,22 @@ struct FPTU_API_TYPE field_loose {
     constexpr_assert(!is_hole());
     return descriptor2id(genus_and_id);
   }
+  /* Размер больших дыр не помещается в дескриптор и хранится внутри зазора. */
+  enum : unsigned { huge_hole_threshold = tag_bits::max_ident };
+  cxx11_constexpr bool is_huge_hole() const {
+    return is_hole() && descriptor2id(genus_and_id) == huge_hole_threshold;
+  }
   cxx11_constexpr unsigned hole_get_units() const {
     constexpr_assert(is_hole());
-    return descriptor2id(genus_and_id);
+    return unlikely(is_huge_hole()) ? unsigned(relative.payload()->flat[0])
+                                    : descriptor2id(genus_and_id);
   }
+  /* Ссылка на данные должна быть установлена перед вызовом. */
   void hole_set_units(size_t units) {
+    if (unlikely(units >= huge_hole_threshold)) {
+      relative.payload()->flat[0] = unit_t(units);
+      units = huge_hole_threshold;
+    }
     genus_and_id = loose_genus_and_id_t(details::make_hole(units));
   }
   cxx14_constexpr const unit_t *hole_begin() const {
diff --git a/src/audit.cxx b/src/audit.cxx
index f09b189..cd7b928 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -196,6 +196,12 @@ const char *auditor::check_loose(const field_loose *loose,
     return nullptr;
 
   if (type == genus::hole) {
+    if (unlikely(loose->is_huge_hole()) &&
+        (!loose->relative.have_payload() ||
+         loose->relative.payload()->flat < begin_payload ||
+         loose->relative.payload()->flat >= end_payload ||
+         loose->hole_get_units() < field_loose::huge_hole_threshold))
+      return AUDIT_FAILURE("tuple.huge_hole is malformed");
     const std::size_t units = loose->hole_get_units();
     holes_count_ += 1;
     if (units == 0) {
diff --git a/src/gear.cxx b/src/gear.cxx
index f27baae..38ec4c9 100644
--- a/src/gear.cxx
+++ b/src/gear.cxx
@@ -118,9 +118,11 @@ __pure_function field_loose *gear::lookup_hole(unsigned units) cxx11_noexcept {
   if (junk_.count < 1 || junk_.volume < units)
     return nullptr;
 
-  if_constexpr(MODE == hole_search_mode::exactly_size) return const_cast<
-      field_loose *>(
-      lookup(is_sorted(), begin_index(), end_index(), make_hole(units)));
+  if_constexpr(MODE == hole_search_mode::exactly_size) {
+    if (likely(units < field_loose::huge_hole_threshold))
+      return const_cast<field_loose *>(
+          lookup(is_sorted(), begin_index(), end_index(), make_hole(units)));
+  }
 
   if (0 == /* нет смысла искать, так как дырка ненулевого размера потребует
               усечения и поиска еще одной дырки... */
@@ -137,8 +139,14 @@ __pure_function field_loose *gear::lookup_hole(unsigned units) cxx11_noexcept {
       continue;
     if (scan->hole_get_units() >= units) {
       if_constexpr(MODE == hole_search_mode::any_suitable) return scan;
-      /* MODE == hole_search_mode::best_fit */
-      found = best_fit(units, found, scan);
+      if_constexpr(MODE == hole_search_mode::exactly_size) {
+        if (scan->hole_get_units() == units)
+          return scan;
+      }
+      else {
+        /* MODE == hole_search_mode::best_fit */
+        found = best_fit(units, found, scan);
+      }
     }
     if (--left_holes == 0)
       break;
@@ -411,8 +419,9 @@ gear::release_data(relative_payload *chunk, unsigned units,
       merged = merge_holes(merged, before_after.second);
     else {
       merged = before_after.second;
+      const unsigned total = units + merged->hole_get_units();
       merged->relative.sub_delta(units);
-      merged->hole_set_units(units + merged->hole_get_units());
+      merged->hole_set_units(total);
     }
   }
 
@@ -483,8 +492,8 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
       try {
 #endif
         field_loose *hole = index_alloc(needed);
-        hole->hole_set_units(have);
         hole->relative.set_payload(ref.payload());
+        hole->hole_set_units(have);
         junk_.count += 1;
         junk_.volume += uint16_t(have);
         ref.set_payload(tail_alloc(needed));
@@ -503,8 +512,8 @@ relative_payload *gear::realloc_data(relative_offset &ref, const unsigned have,
     assert(needed < have);
     field_loose *hole =
         index_alloc(needed) /* Тут может выскочить исключение */;
-    hole->hole_set_units(have - needed);
     hole->relative.set_payload(ref.payload()->flat + needed);
+    hole->hole_set_units(have - needed);
     junk_.count += 1;
     junk_.volume += uint16_t(have - needed);
     return ref.payload();
-- 
2.43.0


From d6949ded45b6607eedcceeab9117a1fd6b48f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 10/67] fix: set_unsigned/insert_unsigned of a signed value
 addressed signed fields

---
 fast_positive/tuples/details/rw.h | 2 +-
 src/rw.cxx                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 39bab31..e44ef3f 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -524,7 +524,7 @@ public:
     void set_unsigned(const int64_t value) {
       if (unlikely(value < 0))
         throw_value_range();
-      return set_integer(static_cast<uint64_t>(value));
+      return set_unsigned(static_cast<uint64_t>(value));
     }
 
     void set_int128(const int128_t &value) {
diff --git a/src/rw.cxx b/src/rw.cxx
index 374d3de..dfd9666 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -315,7 +315,7 @@ FPTU_API dynamic_collection_iterator_rw
 tuple_rw::insert_unsigned(const token &ident, const int64_t value) {
   if (unlikely(value < 0))
     throw_value_range();
-  return insert_integer(ident, static_cast<uint64_t>(value));
+  return insert_unsigned(ident, static_cast<uint64_t>(value));
 }
 
 FPTU_API dynamic_collection_iterator_rw
-- 
2.43.0


From d6ac6a281b9406115f043d0af85af4cd4d0f56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 11/67] fix: 128-bit integers were silently truncated when
 stored to narrower fields

---
 fast_positive/tuples/details/rw.h | 4 ++++
 src/rw.cxx                        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index e44ef3f..a52fe22 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -531,6 +531,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != int128_t(int64_t(value))))
+        throw_value_range();
       return set_integer(int64_t(value));
     }
 
@@ -538,6 +540,8 @@ public:
       if (base::type() == bin128)
         return assign<bin128>(
             *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+      if (unlikely(value != uint128_t(uint64_t(value))))
+        throw_value_range();
       return set_unsigned(uint64_t(value));
     }
 
diff --git a/src/rw.cxx b/src/rw.cxx
index dfd9666..0937fcd 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -323,6 +323,8 @@ tuple_rw::insert_int128(const token &ident, const int128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != int128_t(int64_t(value))))
+    throw_value_range();
   return insert_integer(ident, int64_t(value));
 }
 
@@ -331,6 +333,8 @@ tuple_rw::insert_uint128(const token &ident, const uint128_t &value) {
   if (ident.type() == bin128)
     return insert_bin128(
         ident, *erthink::constexpr_pointer_cast<const binary128_t *>(&value));
+  if (unlikely(value != uint128_t(uint64_t(value))))
+    throw_value_range();
   return insert_unsigned(ident, uint64_t(value));
 }
 
-- 
2.43.0


From 66c7010f84210bdc8a9b9f7f64018888a9cb8454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:35 +0000
Subject: [PATCH 12/67] fix: reset() of a tuple created without index space
 terminated the process

---
 src/rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index 0937fcd..d758167 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -612,7 +612,7 @@ tuple_rw::insert_number(const token &ident, const double value) {
 
 void tuple_rw::reset() {
   /* sanity check for corruption */
-  if (unlikely(pivot_ < 1 || pivot_ > fptu::max_fields || pivot_ > end_ ||
+  if (unlikely(pivot_ > fptu::max_fields || pivot_ > end_ ||
                end_ > bytes2units(fptu::buffer_limit)))
     throw_tuple_bad(this);
 
-- 
2.43.0


From e9d54f3885acaef0756d828bb56c26be1a133bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:04 +0000
Subject: [PATCH 13/67] fix: automatic growth lost track of the gaps

---
 src/autogrowth.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 88634e8..ecdcea5 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -188,6 +188,7 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
 
   new_tuple->head_ = new_tuple->pivot_ - (pimpl_->pivot_ - pimpl_->head_);
   new_tuple->tail_ = new_tuple->pivot_ + (pimpl_->tail_ - pimpl_->pivot_);
+  new_tuple->junk_ = pimpl_->junk_;
   std::memcpy(static_cast<void *>(new_tuple->begin_index()),
               pimpl_->begin_index(),
               details::units2bytes(pimpl_->tail_ - pimpl_->head_));
-- 
2.43.0


From 05e3e0b68ec1a1ddf3e2ddcbd84e94218331827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 14/67] fix: automatic growth refused tuples with preplaced
 fields near the size limit

---
 src/autogrowth.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index ecdcea5..3cf6e06 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -113,8 +113,10 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
    * Однако, под данные отойдет всё место после резервирования под индекс.
    * Поэтому, с учетом перехода на следующий уровень масштаба, место под данные
    * скорее всего будет выделено примерно в четверо больше. */
+  const size_t preplaced_bytes =
+      pimpl_->schema_ ? pimpl_->schema_->preplaced_bytes() : 0;
   const size_t growth_data = std::min(
-      size_t(fundamentals::max_tuple_bytes_netto),
+      size_t(fundamentals::max_tuple_bytes_netto) - preplaced_bytes,
       (wanna.data_space > pimpl_->tail_space_units())
           ? details::units2bytes((wanna.data_space + data_capacity_units) * 2)
           : details::units2bytes(data_capacity_units + 42));
-- 
2.43.0


From cb8811138cd4b14d545fe658331bb19cda15d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:52 +0000
Subject: [PATCH 15/67] fix: a failed allocation while composing an error
 terminated the process

---
 fast_positive/tuples/details/exceptions.h | 8 ++++----
 src/except.cxx                            | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/fast_positive/tuples/details/exceptions.h b/fast_positive/tuples/details/exceptions.h
index 738eb18..3e1d740 100644
--- a/fast_positive/tuples/details/exceptions.h
+++ b/fast_positive/tuples/details/exceptions.h
@@ -86,7 +86,7 @@ class FPTU_API_TYPE bug : public std::runtime_error {
   const bug_location &location_;
 
 public:
-  bug(const bug_location &) cxx11_noexcept;
+  bug(const bug_location &);
   const bug_location &location() const cxx11_noexcept { return location_; }
   virtual ~bug() cxx11_noexcept;
 };
@@ -145,9 +145,9 @@ public:
     using base = BASE;                                                         \
                                                                                \
   public:                                                                      \
-    NAME() cxx11_noexcept;                                                     \
-    NAME(const char *details) cxx11_noexcept;                                  \
-    NAME(const std::string &details) cxx11_noexcept;                           \
+    NAME();                                                                    \
+    NAME(const char *details);                                                 \
+    NAME(const std::string &details);                                          \
     virtual ~NAME() cxx11_noexcept;                                            \
   }
 
diff --git a/src/except.cxx b/src/except.cxx
index 0e42906..8b7a5b7 100644
--- a/src/except.cxx
+++ b/src/except.cxx
@@ -34,7 +34,7 @@ __cold void raise_bug(const bug_location &what_and_where) {
   throw bug(what_and_where);
 }
 
-__cold bug::bug(const bug_location &location) cxx11_noexcept
+__cold bug::bug(const bug_location &location)
     : std::runtime_error(format("fptu-bug: %s.%s at %s:%u",
                                 location.condition(), location.function(),
                                 location.filename(), location.line())),
@@ -109,10 +109,9 @@ __cold __noreturn void throw_tuple_overflow() { throw tuple_overflow(); }
 //------------------------------------------------------------------------------
 
 #define FPTU_DEFINE_EXCEPTION(NAME, MESSAGE)                                   \
-  __cold NAME::NAME() cxx11_noexcept : base(MESSAGE) {}                        \
-  __cold NAME::NAME(const char *details) cxx11_noexcept : base(details) {}     \
-  __cold NAME::NAME(const std::string &details) cxx11_noexcept                 \
-      : base(details) {}                                                       \
+  __cold NAME::NAME() : base(MESSAGE) {}                                       \
+  __cold NAME::NAME(const char *details) : base(details) {}                    \
+  __cold NAME::NAME(const std::string &details) : base(details) {}             \
   __cold NAME::~NAME() cxx11_noexcept {}
 
 FPTU_DEFINE_EXCEPTION(invalid_argument, "fptu: invalid argument")
-- 
2.43.0


From 7ae0853b5febfe3372a91c1d3babd65bc318552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:17 +0000
Subject: [PATCH 16/67] fix: automatic growth let the index exceed the limit of
 the format

---
 src/autogrowth.cxx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 3cf6e06..dc62ed9 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -29,7 +29,8 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   size_t allocated_units = pimpl_->tail_ - pimpl_->head_;
   size_t unallocated_units = pimpl_->end_ - allocated_units;
   if (unlikely(allocated_units - junk_units + wanna_units >= UINT16_MAX ||
-               wanna.index_space > fundamentals::max_fields ||
+               pimpl_->index_size() - pimpl_->junk_.count + wanna.index_space >
+                   fundamentals::max_fields ||
                wanna.data_space > fundamentals::max_tuple_bytes_netto)) {
     /* Запрос превышает максимальный размер. Чтобы не искажать картину бросаем
      * исключение не изменяя кортеж. */
@@ -55,11 +56,12 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
        * переместить "с запасом", распределяя свободное место пропорционально
        * актуальным размерам индекса (с учетом приращения) и данных. При этом
        * выполняем ceil-округление для места резервируемого под индекс. */
-      const ptrdiff_t reserve =
-          std::max(wanna.index_space,
-                   std::min((unallocated_units * index_used + whole_used - 1) /
+      const ptrdiff_t reserve = std::max(
+          wanna.index_space,
+          std::min(std::min((unallocated_units * index_used + whole_used - 1) /
                                 whole_used,
-                            unallocated_units - wanna.data_space));
+                            unallocated_units - wanna.data_space),
+                   fundamentals::max_fields - pimpl_->index_size()));
       shift = reserve - pimpl_->head_;
     } else if (wanna.data_space > pimpl_->end_ - pimpl_->tail_) {
       /* Недостаточно места для данных, перемещаем всё вперед. Пытаемся
-- 
2.43.0


From c69e10b2928173375c121e5ba42825c2c7086282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:00 +0000
Subject: [PATCH 17/67] fix: validation of a tuple with a full index and
 stretchy preplaced fields terminated the process

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index cd7b928..fe2cc60 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -88,7 +88,7 @@ public:
   auditor(onstack_allocation_arena &area, std::size_t limit)
       : map_(area), holes_count_(0), holes_volume_(0) {
     static_assert(sizeof(interval) == 2 * sizeof(offset), "WTF?");
-    FPTU_ENSURE(limit <= fptu::max_fields);
+    FPTU_ENSURE(limit <= fptu::max_fields + fptu::max_preplaced_size);
     map_.reserve(limit);
   }
 
-- 
2.43.0


From 0fb29127faab543e1a287722b813c97cf3ca0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:00 +0000
Subject: [PATCH 18/67] fix: memory exhaustion inside validation terminated the
 process

---
 src/audit.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index fe2cc60..46d985c 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -21,6 +21,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
+#include <new>
 #include <utility>
 #include <vector>
 
@@ -235,7 +236,7 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
                               const field_loose *const index_begin,
                               const void *const pivot, const void *const end,
                               const audit_flags flags,
-                              audit_holes_info &holes_info) {
+                              audit_holes_info &holes_info) try {
   const field_loose *const index_end = static_cast<const field_loose *>(pivot);
   const unit_t *const payload_begin = static_cast<const unit_t *>(pivot);
   const unit_t *const payload_end = static_cast<const unit_t *>(end);
@@ -354,6 +355,8 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
     return AUDIT_FAILURE("loose fields mis-sorted");
 
   return nullptr;
+} catch (const std::bad_alloc &) {
+  return "not enough memory to audit the tuple";
 }
 
 __always_inline const char *
-- 
2.43.0


From f350191e652d97784cbc622e037e19dd7d9ca7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:31 +0000
Subject: [PATCH 19/67] fix: validation rejected the image of a tuple of the
 maximal size

---
 src/audit.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index 46d985c..fa7e674 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -367,7 +367,7 @@ tuple_ro::inline_lite_checkup(const void *ptr,
 
   if (unlikely(bytes < sizeof(unit_t)))
     return AUDIT_FAILURE("hollow tuple (too short)");
-  if (unlikely(bytes > fptu::max_tuple_bytes_netto))
+  if (unlikely(bytes > fptu::max_tuple_bytes_brutto))
     return AUDIT_FAILURE("tuple too large");
   if (unlikely(bytes % sizeof(unit_t)))
     return AUDIT_FAILURE("odd tuple size");
-- 
2.43.0


From 33d374bb56e2863931044a9e97cce14c272bd23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:19 +0000
Subject: [PATCH 20/67] fix: automatic growth of the index could push the data
 out of the buffer

---
 src/autogrowth.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index dc62ed9..94f8c5a 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -126,7 +126,10 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
   /* Место под индекс: удваиваем если не хватило или использовано хотя-бы на
    * половину, иначе оставляем как есть. */
   const size_t growth_index =
-      std::min(size_t(fundamentals::max_fields),
+      std::min(std::min(size_t(fundamentals::max_fields),
+                        /* данные вместе с индексом не должны превысить предел */
+                        size_t(max_tuple_units_netto) -
+                            (pimpl_->tail_ - pimpl_->pivot_)),
                (wanna.index_space > pimpl_->head_space() ||
                 pimpl_->head_ + pimpl_->head_ < pimpl_->pivot_)
                    ? (wanna.index_space + pimpl_->pivot_) * 2
-- 
2.43.0


From 62777e1363f8864bd36f9ffbe0b9f6f27b6145e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:54 +0000
Subject: [PATCH 21/67] fix: validation read the length of a value before
 checking that it lies inside the tuple

---
 src/audit.cxx | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/audit.cxx b/src/audit.cxx
index fa7e674..7d6d822 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -98,6 +98,10 @@ public:
                           const unit_t *begin_payload,
                           const unit_t *end_payload);
 
+  const char *check_stretchy(const relative_payload *payload, const genus type,
+                             const unit_t *begin_payload,
+                             const unit_t *end_payload);
+
   const char *check_loose(const field_loose *loose, const unit_t *begin_payload,
                           const unit_t *end_payload);
 };
@@ -189,6 +193,26 @@ const char *auditor::check_chunk(const unit_t *chunk_begin,
   return nullptr;
 }
 
+const char *auditor::check_stretchy(const relative_payload *payload,
+                                    const genus type,
+                                    const unit_t *begin_payload,
+                                    const unit_t *end_payload) {
+  /* сначала следует убедиться что заголовок значения внутри кортежа */
+  if (unlikely(payload->flat < begin_payload || payload->flat >= end_payload))
+    return AUDIT_FAILURE("stretchy payload is out of tuple");
+
+  const std::size_t units = payload->stretchy.brutto_units(type);
+  if (unlikely(units < 1))
+    return AUDIT_FAILURE("hollow stretchy payload");
+  if (unlikely(type == genus::varbin && units == 1 &&
+               (payload->stretchy.varbin.reserved14_tailbytes & 3) != 0))
+    return AUDIT_FAILURE("malformed length of varbin");
+  if (unlikely(type == genus::nested &&
+               payload->stretchy.tuple.index_size() >= units))
+    return AUDIT_FAILURE("nested tuple.pivot > tuple.end");
+  return check_chunk(payload->flat, units, begin_payload, end_payload);
+}
+
 const char *auditor::check_loose(const field_loose *loose,
                                  const unit_t *begin_payload,
                                  const unit_t *end_payload) {
@@ -225,9 +249,8 @@ const char *auditor::check_loose(const field_loose *loose,
 
   /* stretchy */
   if (loose->relative.have_payload())
-    return check_chunk(loose->relative.payload()->flat,
-                       loose->relative.payload()->stretchy.brutto_units(type),
-                       begin_payload, end_payload);
+    return check_stretchy(loose->relative.payload(), type, begin_payload,
+                          end_payload);
   return nullptr;
 }
 } // namespace
@@ -293,10 +316,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
 
       if (!target->relative.have_payload())
         continue;
-      const auto payload = target->relative.payload();
-      trouble = validator.check_chunk(
-          payload->flat, payload->stretchy.brutto_units(field_token.type()),
-          payload_begin, payload_end);
+      trouble = validator.check_stretchy(target->relative.payload(),
+                                         field_token.type(), payload_begin,
+                                         payload_end);
       if (unlikely(trouble))
         return AUDIT_FAILURE(trouble);
     }
-- 
2.43.0


From c22b9b3407b91532bc84e0af51770e7859d16b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:22 +0000
Subject: [PATCH 22/67] fix: clone of a read-only tuple skipped the validation
 it promises and lost the gap accounting

---
 src/managed.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 928b566..491048a 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -470,13 +470,21 @@ tuple_ro_managed tuple_ro_managed::clone(const tuple_ro_weak &src,
       /* если схема не задана, то считаем что необходимые проверки были
          сделаны при создании tuple_ro_weak, иначе выполняем повторную
          проверку для исключения несоответствия схеме */
-      schema == nullptr);
+      schema != nullptr || src.have_preplaced());
   if (wanna_validation)
     return tuple_ro_managed(tuple_rw_fixed(
         src.data(), src.size(),
         /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
 
-  const details::audit_holes_info &holes_info = {0, 0};
+  /* без проверки данных, но с учётом зазоров */
+  details::audit_holes_info holes_info = {0, 0};
+  const details::tuple_ro *const ro = src.get_impl();
+  for (const details::field_loose *loose = ro->begin_index();
+       loose < ro->end_index(); ++loose)
+    if (loose->is_hole()) {
+      holes_info.count += 1;
+      holes_info.volume += uint16_t(loose->hole_get_units());
+    }
   return tuple_ro_managed(tuple_rw_fixed(
       holes_info, src,
       /* more_items */ 0, /* more_payload */ 0, schema, allot_tag));
-- 
2.43.0


From 978fcf1a6a504bb7f808445e46d0923813104d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:30 +0000
Subject: [PATCH 23/67] fix: take_weak() and take_managed_clone() did the
 opposite of dont_optimize

---
 fast_positive/tuples.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 6f85a16..a10c82c 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -850,8 +850,8 @@ public:
 
   /* возвращает пару, во втором элементе признак инвалидации итераторов */
   std::pair<tuple_ro_weak, bool> take_weak(bool dont_optimize = false) {
-    return dont_optimize ? take_weak_optimized()
-                         : std::make_pair(take_weak_asis(), false);
+    return dont_optimize ? std::make_pair(take_weak_asis(), false)
+                         : take_weak_optimized();
   }
 
   tuple_ro_managed move_to_ro(bool dont_optimize = false) {
@@ -887,10 +887,9 @@ public:
       bool dont_optimize = false, bool hollow_if_empty = false,
       const hippeus::buffer_tag &allot_tag = default_buffer_allot()) {
     return dont_optimize
-               ? take_managed_clone_optimized(hollow_if_empty, allot_tag)
-               : std::make_pair(
-                     take_managed_clone_asis(hollow_if_empty, allot_tag),
-                     false);
+               ? std::make_pair(
+                     take_managed_clone_asis(hollow_if_empty, allot_tag), false)
+               : take_managed_clone_optimized(hollow_if_empty, allot_tag);
   }
 
   __pure_function static cxx11_constexpr size_t estimate_required_space(
-- 
2.43.0


From 404497e1134cf2f6f9479e09c989178826ce8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:03 +0000
Subject: [PATCH 24/67] fix: a tuple with preplaced fields near the size limit
 could not be reopened

---
 fast_positive/tuples/details/rw.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index a52fe22..cdbc21a 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1158,8 +1158,9 @@ public: //----------------------------------------------------------------------
     const std::size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
     if (unlikely(preplaced_bytes > fundamentals::max_tuple_bytes_netto))
       throw_invalid_schema();
-    if (unlikely(data_bytes >
-                     fundamentals::max_tuple_bytes_netto - preplaced_bytes ||
+    if (unlikely(data_bytes > fundamentals::max_tuple_bytes_netto -
+                                  (dont_account_preplaced ? 0
+                                                          : preplaced_bytes) ||
                  items > fundamentals::max_fields))
       throw_tuple_too_large();
 
-- 
2.43.0


From 145bd19a2057cefbacd3fcab17bf29699672267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:52 +0000
Subject: [PATCH 25/67] fix: reopening a big tuple with a large index reserve
 pushed the data past the end

---
 src/rw.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index d758167..1911b0e 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -707,8 +707,10 @@ inline tuple_rw::tuple_rw(const audit_holes_info &holes_info,
     throw_invalid_argument("buffer_bytes > fptu::buffer_limit");
 
   const std::size_t have_items = ro->index_size();
+  /* запас в индексе не может вытеснить данные за предел размера кортежа */
   const std::size_t reserve_items =
-      std::min(size_t(fptu::max_fields), have_items + more_items);
+      std::min(std::min(size_t(fptu::max_fields), have_items + more_items),
+               size_t(max_tuple_units_netto) - ro->payload_units());
   const std::size_t space_needed = tuple_rw::estimate_required_space(
       reserve_items, ro->payload_bytes(), schema,
       /* не учитываем размер preplaced-полей, ибо они уже должы быть в ro */
-- 
2.43.0


From d550bf2810980929c152d70d92e92a676aa02c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:01 +0000
Subject: [PATCH 26/67] fix: memory exhaustion while turning a read-only tuple
 into an auto-growing one killed the process

---
 fast_positive/tuples.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index a10c82c..c872e7a 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -1169,7 +1169,7 @@ public:
   tuple_rw_managed(const tuple_rw_managed &) = delete;
   tuple_rw_managed &operator=(const tuple_rw_managed &) = delete;
 
-  tuple_rw_managed(tuple_ro_managed &&src) cxx11_noexcept
+  tuple_rw_managed(tuple_ro_managed &&src)
       : base(std::move(src)) {}
 
   tuple_rw_managed &operator=(tuple_ro_managed &&src) {
-- 
2.43.0


From 5a8a0c3cf884327411f1a92ad9319e5c41109f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:15 +0000
Subject: [PATCH 27/67] fix: get_nested_managed() of an absent nested tuple was
 refused instead of yielding an empty one

---
 fast_positive/tuples.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index c872e7a..46da85c 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -585,7 +585,7 @@ public:
   template <typename TOKEN>
   __pure_function inline tuple_ro_managed
   get_nested_managed(const TOKEN &ident) const {
-    return tuple_ro_managed(get_impl()->get_nested(ident), get_buffer());
+    return tuple_ro_managed(get_nested_weak(ident), *this);
   }
 };
 
-- 
2.43.0


From 389d5022a4b6319b1aa89b5c5ad220c7434f58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:24 +0000
Subject: [PATCH 28/67] fix: fptu_upsert_nested() was always refused

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 790afc6..b2d84b1 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -335,7 +335,7 @@ fptu_error fptu_upsert_opaque_iov(fptu_rw *pt, unsigned column,
 fptu_error fptu_upsert_nested(fptu_rw *pt, unsigned column,
                               fptu_ro ro) cxx11_noexcept {
   try {
-    const fptu::token id(fptu::genus::varbin, column, false, true, false);
+    const fptu::token id(fptu::genus::nested, column, false, true, false);
     pt->set_nested(id, fptu::details::tuple_ro::make_from_buffer(
                            ro.sys.iov_base, ro.sys.iov_len, nullptr, false));
     return FPTU_OK;
-- 
2.43.0


From f7728515ad2b9e8625436e836a97590c2822c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:10 +0000
Subject: [PATCH 29/67] fix: fptu_field_as_iovec() gave the length in units and
 the header of a value as its data

---
 src/compat_field.cxx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 84b498c..9d239e0 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -38,18 +38,25 @@ void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
 //------------------------------------------------------------------------------
 
 struct iovec fptu_field_as_iovec(const fptu_field *pf) cxx11_noexcept {
-  if (likely(pf)) {
+  if (likely(pf && !pf->is_hole())) {
     const auto type = pf->type();
     if (fptu::details::is_inplaced(type))
-      return fptu::iovec(&pf->inplaced, fptu::details::loose_units(type));
+      return fptu::iovec(&pf->inplaced,
+                         fptu::details::preplaced_bytes_dynamic(type));
 
     if (fptu::details::is_fixed_size(type))
       return fptu::iovec(pf->relative.payload(),
-                         fptu::details::loose_units(type));
+                         fptu::details::preplaced_bytes_dynamic(type));
 
-    if (pf->relative.have_payload())
-      return fptu::iovec(pf->relative.payload(),
-                         pf->relative.payload()->stretchy.length(type));
+    if (pf->relative.have_payload()) {
+      const auto payload = pf->relative.payload();
+      const std::size_t length = payload->stretchy.length(type);
+      if (type == fptu::genus::text)
+        return fptu::iovec(payload->stretchy.string.begin(), length);
+      if (type == fptu::genus::varbin)
+        return fptu::iovec(payload->stretchy.varbin.begin(), length);
+      return fptu::iovec(payload, length);
+    }
   }
   return fptu::iovec(nullptr, 0);
 }
-- 
2.43.0


From a78ac107d24f58ec6cd42ae4544ac88c9b3e3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:10 +0000
Subject: [PATCH 30/67] fix: fptu_field_column() of an erased field gave the
 size of the gap instead of a negative value

---
 src/compat_field.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 9d239e0..cde44c7 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -27,7 +27,7 @@ fptu_type fptu_field_type(const fptu_field *pf) cxx11_noexcept {
   return pf ? pf->legacy_type() : fptu_null;
 }
 int fptu_field_column(const fptu_field *pf) cxx11_noexcept {
-  return pf ? pf->colnum() : -1;
+  return (pf && !pf->is_hole()) ? int(pf->colnum()) : -1;
 }
 
 void fptu_erase_field(fptu_rw *pt, fptu_field *pf) cxx11_noexcept {
-- 
2.43.0


From bcd02b8c016f189de0f94157ffee7cc8eee10ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:58 +0000
Subject: [PATCH 31/67] fix: fptu_insert_96/128/160/256() silently dropped an
 all-zero value

---
 src/compat_rw.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index b2d84b1..759f17d 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -373,7 +373,7 @@ FPTU_INSERT_IMPL(datetime, datetime, t64, fptu_datetime_t)
   fptu_error fptu_insert_##BITS(fptu_rw *pt, unsigned column,                  \
                                 const void *data) cxx11_noexcept {             \
     try {                                                                      \
-      const fptu::token id(fptu::genus::bin##BITS, column, true);              \
+      const fptu::token id(fptu::genus::bin##BITS, column, true, true, false); \
       pt->insert_bin##BITS(                                                    \
           id,                                                                  \
           *erthink::constexpr_pointer_cast<const fptu::binary##BITS##_t *>(    \
-- 
2.43.0


From 20b81789f3b7f09161920f532cc79ea68faa7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 32/67] fix: the C interface terminated the process when memory
 ran out while recording an error

---
 src/compat_common.cxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compat_common.cxx b/src/compat_common.cxx
index cc26ddb..afbef0c 100644
--- a/src/compat_common.cxx
+++ b/src/compat_common.cxx
@@ -31,10 +31,20 @@ __cold const char *fptu_last_error_msg() {
   return tls_last_error.second.c_str();
 }
 
+/* The message is auxiliary: the lack of memory to keep a copy of it must
+ * neither hide the error code nor terminate the process. */
+static void set_message(std::string &holder, const char *message) {
+  try {
+    holder = message;
+  } catch (const std::bad_alloc &) {
+    holder.clear();
+  }
+}
+
 __cold const last_error &fptu_set_error(const std::exception &e) {
   auto &tls = tls_last_error;
 
-  tls.second = e.what();
+  set_message(tls.second, e.what());
   if (typeid(e) == typeid(fptu::insufficient_space))
     tls.first = FPTU_ENOSPACE;
   else if (typeid(e) == typeid(std::bad_alloc))
@@ -49,7 +59,7 @@ __cold const last_error &fptu_set_error(const std::exception &e) {
 __cold const last_error &fptu_set_error(fptu_error code, const char *message) {
   auto &tls = tls_last_error;
   tls.first = code;
-  tls.second = message;
+  set_message(tls.second, message);
   return tls;
 }
 
-- 
2.43.0


From 6a3ae3e1d82c03b27cf9dddafcc0710460e7c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:16 +0000
Subject: [PATCH 33/67] fix: fptu_get_cstr() left the error code unset on
 success

---
 src/compat_ro.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 304f300..3e0379e 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -124,12 +124,11 @@ FPTU_GET_IMPL(256)
 
 const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
+  error_guard raii(error);
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
   if (pf)
     return fptu_field_cstr(pf);
-  fptu_set_error(FPTU_ENOFIELD, "fptu: no such field");
-  if (error)
-    *error = FPTU_ENOFIELD;
+  raii.feed(FPTU_ENOFIELD, "fptu: no such field");
   return "";
 }
 
-- 
2.43.0


From 367be4990bd89c3433258ed2149cc719825e2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:04 +0000
Subject: [PATCH 34/67] fix: fptu_fetch() lost track of the gaps in a fetched
 tuple

---
 src/compat_rw.cxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index 759f17d..ccf00bf 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -148,8 +148,16 @@ fptu_rw *fptu_fetch(fptu_ro ro, void *buffer_space, std::size_t buffer_bytes,
     const fptu::details::tuple_ro *tuple_ro =
         static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
 
+    fptu::details::audit_holes_info holes_info;
+    holes_info.count = holes_info.volume = 0;
+    for (const auto *pf = fptu_begin_ro(ro); pf < fptu_end_ro(ro); ++pf)
+      if (pf->is_hole()) {
+        holes_info.count += 1;
+        holes_info.volume += pf->hole_get_units();
+      }
+
     const auto tuple_rw = fptu::details::tuple_rw::fetch_legacy(
-        {0, 0}, tuple_ro, buffer_space, buffer_bytes, more_items);
+        holes_info, tuple_ro, buffer_space, buffer_bytes, more_items);
     return static_cast<fptu_rw *>(tuple_rw);
   } catch (const std::exception &e) {
     fptu_set_error(e);
-- 
2.43.0


From 1cd003263b8498431e8ea73e6ee6a0dba66a968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:25 +0000
Subject: [PATCH 35/67] fix: fptu_init() and fptu_fetch() wrote past the end of
 a tiny buffer before refusing it

---
 src/rw.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rw.cxx b/src/rw.cxx
index 1911b0e..d566df1 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -689,6 +689,8 @@ tuple_rw *tuple_rw::create_new(std::size_t items_limit, std::size_t data_bytes,
 
 tuple_rw *tuple_rw::create_legacy(void *buffer_space, std::size_t buffer_size,
                                   std::size_t items_limit) {
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_insufficient_space(items_limit, pure_tuple_size());
   return new (buffer_space) tuple_rw(0, buffer_size, items_limit, nullptr);
 }
 
@@ -781,6 +783,8 @@ tuple_rw *tuple_rw::fetch_legacy(const audit_holes_info &holes_info,
                                  std::size_t buffer_size,
                                  std::size_t more_items) {
   assert(ro->audit(nullptr, holes_info.count == 0) == nullptr);
+  if (unlikely(buffer_size < pure_tuple_size()))
+    throw_insufficient_space(more_items, pure_tuple_size());
   return new (buffer_space)
       tuple_rw(holes_info, ro, 0, buffer_size, more_items, nullptr);
 }
-- 
2.43.0


From 0ba4783a5f18044a6d7dbab2b2b357266d6d6b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 36/67] fix: lookup of an impossible column by type matched a
 field of another type

---
 src/compat_common.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compat_common.cxx b/src/compat_common.cxx
index afbef0c..a762c98 100644
--- a/src/compat_common.cxx
+++ b/src/compat_common.cxx
@@ -87,6 +87,8 @@ __hot const fptu_field *
 fptu_first(const fptu_field *begin, const fptu_field *end, unsigned column,
            fptu_type_or_filter type_or_filter) cxx11_noexcept {
   if (!is_filter(type_or_filter)) {
+    if (unlikely(column > fptu_max_cols))
+      return end /* otherwise would match a field of another type */;
     const fptu_field *pf =
         static_cast<const fptu_field *>(fptu::details::lookup(
             false, begin, end, colid2tag(type_or_filter, column)));
-- 
2.43.0


From da824cee090832bdd869a226ff08fac4c89cd10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:03 +0000
Subject: [PATCH 37/67] fix: memory exhaustion while reading a C-string
 terminated the process

---
 fast_positive/tuples/details/legacy_compat.h |  2 ++
 src/compat_field.cxx                         | 19 ++++++++++++-------
 src/compat_ro.cxx                            | 10 ++++++++--
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/fast_positive/tuples/details/legacy_compat.h b/fast_positive/tuples/details/legacy_compat.h
index 4b5c3b1..fd42a89 100644
--- a/fast_positive/tuples/details/legacy_compat.h
+++ b/fast_positive/tuples/details/legacy_compat.h
@@ -107,6 +107,8 @@ inline unsigned get_colnum(fptu_tag_t tag) {
   return fptu::details::tag2id(fptu::details::tag_t(tag));
 }
 
+const char *field_cstr(const fptu_field *pf);
+
 inline fptu_type get_type(fptu_tag_t tag) {
   const fptu::genus type = fptu::details::tag2genus(tag);
   return genus2legacy(type);
diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index cde44c7..089cf4c 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -109,7 +109,7 @@ FPTU_GET_IMPL(256)
 
 /* LY: crutch for returning legacy c-string */
 static const char *string_view_to_CAPI(const fptu::string_view &value,
-                                       const char *detend) cxx11_noexcept {
+                                       const char *detend) {
   static thread_local std::string holder;
   if (value.empty())
     return FPTU_DENIL_CSTR;
@@ -126,16 +126,21 @@ static const char *string_view_to_CAPI(const fptu::string_view &value,
   return holder.c_str();
 }
 
+namespace fptu {
+const char *field_cstr(const fptu_field *pf) {
+  const auto payload = pf->relative.payload();
+  const char *const field_end = erthink::constexpr_pointer_cast<const char *>(
+      payload->flat + payload->stretchy.string.brutto_units());
+  return string_view_to_CAPI(fptu::details::get<fptu::genus::text>(pf, true),
+                             field_end);
+}
+} // namespace fptu
+
 const char *fptu_field_cstr(const fptu_field *pf) cxx11_noexcept {
   error_guard raii(nullptr);
   if (likely(pf)) {
     try {
-      const auto payload = pf->relative.payload();
-      const char *const field_end =
-          erthink::constexpr_pointer_cast<const char *>(
-              payload->flat + payload->stretchy.string.brutto_units());
-      return string_view_to_CAPI(
-          fptu::details::get<fptu::genus::text>(pf, true), field_end);
+      return fptu::field_cstr(pf);
     } catch (const std::exception &e) {
       raii.feed(e);
     }
diff --git a/src/compat_ro.cxx b/src/compat_ro.cxx
index 3e0379e..fb1ac1a 100644
--- a/src/compat_ro.cxx
+++ b/src/compat_ro.cxx
@@ -126,8 +126,14 @@ const char *fptu_get_cstr(fptu_ro ro, unsigned column,
                           int *error) cxx11_noexcept {
   error_guard raii(error);
   const fptu_field *pf = fptu::lookup(ro, column, fptu_cstr);
-  if (pf)
-    return fptu_field_cstr(pf);
+  if (pf) {
+    try {
+      return fptu::field_cstr(pf);
+    } catch (const std::exception &e) {
+      raii.feed(e);
+      return FPTU_DENIL_CSTR;
+    }
+  }
   raii.feed(FPTU_ENOFIELD, "fptu: no such field");
   return "";
 }
-- 
2.43.0


From 40e35f21bbd6b12933ae3f0356d902eaab42772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:53 +0000
Subject: [PATCH 38/67] fix: fptu_get_buffer_size() terminated the process on
 unreasonable arguments

---
 src/compat_rw.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compat_rw.cxx b/src/compat_rw.cxx
index ccf00bf..933952d 100644
--- a/src/compat_rw.cxx
+++ b/src/compat_rw.cxx
@@ -169,8 +169,13 @@ size_t fptu_get_buffer_size(fptu_ro ro, unsigned more_items,
                             unsigned more_payload) cxx11_noexcept {
   const fptu::details::tuple_ro *tuple_ro =
       static_cast<const fptu::details::tuple_ro *>(ro.sys.iov_base);
-  return fptu::details::tuple_rw::estimate_required_space(
-      tuple_ro, more_items, more_payload, nullptr);
+  try {
+    return fptu::details::tuple_rw::estimate_required_space(
+        tuple_ro, more_items, more_payload, nullptr);
+  } catch (const std::exception &e) {
+    fptu_set_error(e);
+    return 0;
+  }
 }
 
 static const char cbfs_ok_sign[] = "FPTU_SUCCESS";
-- 
2.43.0


From 1a66a6723894cc920caa74f9c5f7e999625d1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:03 +0000
Subject: [PATCH 39/67] fix: an opaque structure defined in a schema got zero
 size and overlapped the next field

---
 src/schema.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index e1b30cf..99395d4 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -169,8 +169,9 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
             erthink::constexpr_pointer_cast<details::field_preplaced *>(
                 const_cast<char *>(preplaced_image_.data()) +
                 ident.preplaced_offset());
-        details::preplaced_erase(ident.type(), initial_value_ptr,
-                                 ident.is_discernible_null());
+        if (ident.type() != genus::hole)
+          details::preplaced_erase(ident.type(), initial_value_ptr,
+                                   ident.is_discernible_null());
       }
       number_of_stretchy_preplaced_ += ident.is_stretchy();
       number_of_preplaced_ += 1;
@@ -239,7 +240,10 @@ token schema_impl::define_preplaced_fixed_opacity(std::string &&name,
   if (unlikely(aligned_offset > details::max_preplaced_offset))
     throw_schema_definition_error("fptu: too many preplaced fields");
 
-  const token ident(aligned_offset, genus::hole, false, false);
+  /* размер известен только здесь, поэтому должен быть помещен в токен явно */
+  const token ident(details::token_operations<details::token_nonstatic_tag>(
+      details::tag_from_offset(aligned_offset, genus::hole, size, false,
+                               false)));
   add_definition(std::move(name), ident, initial_value);
   return ident;
 }
-- 
2.43.0


From 12d44706bc98788544cd181dab838028da9288f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:32 +0000
Subject: [PATCH 40/67] fix: memory exhaustion while looking a field up by name
 terminated the process

---
 src/schema.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 99395d4..5c1cde2 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -293,7 +293,16 @@ token schema_impl::import_definition(std::string &&name, const token &ident,
 token schema_impl::get_token_nothrow(
     const string_view &name, const boolean_option discernible_null,
     const boolean_option saturated) const cxx11_noexcept {
-  const auto it = name2token_.find(name);
+  auto it = name2token_.end();
+  try {
+    it = name2token_.find(name);
+  } catch (const std::bad_alloc &) {
+    /* нет памяти для создания ключа, поэтому ищем перебором */
+    it = std::find_if(name2token_.begin(), name2token_.end(),
+                      [&name](const map_name2token::value_type &item) {
+                        return string_view(item.first) == name;
+                      });
+  }
   if (it == name2token_.end())
     return token();
 
-- 
2.43.0


From eef2a254beaef8ebf4acc7f59c1baab8d431de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:56 +0000
Subject: [PATCH 41/67] fix: schema lookup by a loose field descriptor missed
 some defined fields

---
 src/schema.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index 5c1cde2..9e439ce 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -450,6 +450,11 @@ schema::by_loose(const details::field_loose *field) const cxx11_noexcept {
       assert(false);
       __unreachable();
     }
+
+    /* искомый элемент мог быть последним рассмотренным серединным */
+    if (iter < sorted_tokens_.end() &&
+        details::tag2genus_and_id(iter->tag()) == field->genus_and_id)
+      return *iter;
   }
 
   return token();
-- 
2.43.0


From 22b7c8ed036c326faa6dccd2df3fc5bb091e502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:20 +0000
Subject: [PATCH 42/67] fix: memory exhaustion while defining a field destroyed
 the whole schema

---
 src/schema.cxx | 73 +++++++++++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 9e439ce..093d6d3 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -49,14 +49,6 @@ struct schema_impl : public schema {
   map_name2token name2token_;
   map_token2name token2name_;
 
-  void purge() cxx11_noexcept {
-    sorted_tokens_.clear();
-    number_of_preplaced_ = number_of_stretchy_preplaced_ = 0;
-    preplaced_image_.clear();
-    name2token_.clear();
-    token2name_.clear();
-  }
-
   void add_definition(std::string &&name, const token &ident,
                       const void *initial_value);
 
@@ -148,49 +140,46 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
         throw_schema_definition_error(
             "preplaced field is overlapped by another");
     }
-    preplaced_image_.reserve(ident.preplaced_offset() + ident.preplaced_size() -
-                             preplaced_image_.size());
+    preplaced_image_.reserve(
+        std::max(preplaced_image_.capacity(),
+                 ident.preplaced_offset() + ident.preplaced_size()));
   }
   sorted_tokens_.reserve(sorted_tokens_.size() + 1);
-  name2token_.reserve(name2token_.size() + 1);
-  token2name_.reserve(token2name_.size() + 1);
 
+  const auto pair = name2token_.emplace(std::move(name), ident);
+  assert(pair.second);
   try {
-    if (ident.is_preplaced()) {
-      if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-        preplaced_image_.append(
-            ident.preplaced_offset() - preplaced_image_.size(), '\0');
-      if (initial_value)
-        preplaced_image_.append(static_cast<const char *>(initial_value),
-                                ident.preplaced_size());
-      else {
-        preplaced_image_.append(ident.preplaced_size(), '\0');
-        const auto initial_value_ptr =
-            erthink::constexpr_pointer_cast<details::field_preplaced *>(
-                const_cast<char *>(preplaced_image_.data()) +
-                ident.preplaced_offset());
-        if (ident.type() != genus::hole)
-          details::preplaced_erase(ident.type(), initial_value_ptr,
-                                   ident.is_discernible_null());
-      }
-      number_of_stretchy_preplaced_ += ident.is_stretchy();
-      number_of_preplaced_ += 1;
-    }
-
-    sorted_tokens_.push_back(ident);
-    auto const pair = name2token_.emplace(std::move(name), ident);
-    assert(pair.second);
     token2name_.emplace(ident, string_view(pair.first->first));
-    assert(name2token_.size() == sorted_tokens_.size());
-    assert(sorted_tokens_.size() == token2name_.size());
   } catch (...) {
-    /* исключений быть не должно, но если что-то пошло не так,
-     * то на всякий случай стираем всё, чтобы не заботиться о
-     * взаимном соответствии потрохов схемы. */
-    purge();
+    name2token_.erase(pair.first);
     throw;
   }
 
+  /* далее исключений быть не может, вся необходимая память выделена */
+  if (ident.is_preplaced()) {
+    if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
+      preplaced_image_.append(
+          ident.preplaced_offset() - preplaced_image_.size(), '\0');
+    if (initial_value)
+      preplaced_image_.append(static_cast<const char *>(initial_value),
+                              ident.preplaced_size());
+    else {
+      preplaced_image_.append(ident.preplaced_size(), '\0');
+      const auto initial_value_ptr =
+          erthink::constexpr_pointer_cast<details::field_preplaced *>(
+              const_cast<char *>(preplaced_image_.data()) +
+              ident.preplaced_offset());
+      if (ident.type() != genus::hole)
+        details::preplaced_erase(ident.type(), initial_value_ptr,
+                                 ident.is_discernible_null());
+    }
+    number_of_stretchy_preplaced_ += ident.is_stretchy();
+    number_of_preplaced_ += 1;
+  }
+
+  sorted_tokens_.push_back(ident);
+  assert(name2token_.size() == sorted_tokens_.size());
+  assert(sorted_tokens_.size() == token2name_.size());
   std::sort(sorted_tokens_.begin(), sorted_tokens_.end());
 }
 
-- 
2.43.0


From 1246fc8a508b4c3e85e738971dfbd9f100aee2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:39 +0000
Subject: [PATCH 43/67] fix: importing a field into an already occupied fixed
 area put its initial value elsewhere

---
 src/schema.cxx | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index 093d6d3..e4b8475 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -22,6 +22,7 @@
 #include "fast_positive/tuples/token.h"
 
 #include <algorithm>
+#include <cstring>
 #include <unordered_map>
 
 namespace fptu {
@@ -157,21 +158,18 @@ void schema_impl::add_definition(std::string &&name, const token &ident,
 
   /* далее исключений быть не может, вся необходимая память выделена */
   if (ident.is_preplaced()) {
-    if (ident.preplaced_offset() > ptrdiff_t(preplaced_image_.size()))
-      preplaced_image_.append(
-          ident.preplaced_offset() - preplaced_image_.size(), '\0');
+    const std::size_t end = ident.preplaced_offset() + ident.preplaced_size();
+    if (end > preplaced_image_.size())
+      preplaced_image_.append(end - preplaced_image_.size(), '\0');
+    char *const place = &preplaced_image_[ident.preplaced_offset()];
     if (initial_value)
-      preplaced_image_.append(static_cast<const char *>(initial_value),
-                              ident.preplaced_size());
-    else {
-      preplaced_image_.append(ident.preplaced_size(), '\0');
-      const auto initial_value_ptr =
-          erthink::constexpr_pointer_cast<details::field_preplaced *>(
-              const_cast<char *>(preplaced_image_.data()) +
-              ident.preplaced_offset());
-      if (ident.type() != genus::hole)
-        details::preplaced_erase(ident.type(), initial_value_ptr,
-                                 ident.is_discernible_null());
+      std::memcpy(place, initial_value, ident.preplaced_size());
+    else if (ident.type() != genus::hole) {
+      std::memset(place, 0, ident.preplaced_size());
+      details::preplaced_erase(
+          ident.type(),
+          erthink::constexpr_pointer_cast<details::field_preplaced *>(place),
+          ident.is_discernible_null());
     }
     number_of_stretchy_preplaced_ += ident.is_stretchy();
     number_of_preplaced_ += 1;
-- 
2.43.0


From e24683db4ffe351d2930f0a6757c752d940cb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:01 +0000
Subject: [PATCH 44/67] fix: importing an opaque structure over fields inside
 it was refused

---
 src/schema.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index e4b8475..471e734 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -86,8 +86,14 @@ static bool is_inside(const std::ptrdiff_t point, const token &ident) {
 }
 
 static bool is_crossing(const token &a, const token &b) {
-  return is_inside(a.preplaced_offset(), b) !=
-         is_inside(a.preplaced_offset() + a.preplaced_size() - 1, b);
+  const bool a_begin = is_inside(a.preplaced_offset(), b);
+  const bool a_last =
+      is_inside(a.preplaced_offset() + a.preplaced_size() - 1, b);
+  const bool b_begin = is_inside(b.preplaced_offset(), a);
+  const bool b_last =
+      is_inside(b.preplaced_offset() + b.preplaced_size() - 1, a);
+  /* пересечение есть, но ни одно из полей не вложено целиком в другое */
+  return a_begin != a_last && b_begin != b_last;
 }
 
 static bool is_overlapped(const token &a, const token &b) {
-- 
2.43.0


From 464b6b4f9add8a88cbe96b6bc98b442333a6329a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:22 +0000
Subject: [PATCH 45/67] fix: importing an invalid token into a schema corrupted
 memory instead of being refused

---
 src/schema.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index 471e734..f527672 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -267,6 +267,9 @@ token schema_impl::define_loose(std::string &&name, fptu::genus type,
 token schema_impl::import_definition(std::string &&name, const token &ident,
                                      const void *initial_value,
                                      const bool renominate) {
+  if (unlikely(ident.is_preplaced() && ident.preplaced_size() < 1))
+    throw_invalid_argument("invalid token of the field");
+
   if (!renominate) {
     add_definition(std::move(name), ident, initial_value);
     return ident;
-- 
2.43.0


From f2cee76846b72036422ceb907457fb33c8f8f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:46 +0000
Subject: [PATCH 46/67] fix: walking the fixed fields of a schema looped at an
 opaque structure starting with a field

---
 src/schema.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/schema.cxx b/src/schema.cxx
index f527672..b320fd5 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -476,7 +476,8 @@ token schema::next_by_offset(const ptrdiff_t offset) const cxx11_noexcept {
     assert(iter >= tokens().begin() && iter <= detent);
     if (likely(iter < detent)) {
       assert(iter->preplaced_offset() >= offset);
-      iter += iter->preplaced_offset() == offset;
+      while (iter < detent && iter->preplaced_offset() == offset)
+        ++iter;
       if (likely(iter < detent)) {
         assert(iter->is_preplaced());
         return *iter;
-- 
2.43.0


From d94b01a866a3cdaaf87850faf9f8a09b86f83c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:40 +0000
Subject: [PATCH 47/67] fix: walking a tuple yielded a bogus field when the
 fixed area starts with a gap

---
 src/ro.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ro.cxx b/src/ro.cxx
index a287b0b..64680e2 100644
--- a/src/ro.cxx
+++ b/src/ro.cxx
@@ -159,7 +159,8 @@ field_iterator_ro::begin(const void *pivot,
                            pivot, schema);
     /* пропускаем null-евые preplaced-поля */
     auto ident = schema->tokens().begin();
-    assert(ident->is_valid() && ident->preplaced_offset() == 0);
+    assert(ident->is_valid() && ident->is_preplaced());
+    iter.field_ = static_cast<const char *>(pivot) + ident->preplaced_offset();
     const auto detent = ident + schema->number_of_preplaced();
     while (unlikely(iter.preplaced()->is_null(ident->tag()))) {
       if (++ident == detent) {
-- 
2.43.0


From c0f0a573d666f5f824ecda116b9583e5bc5b87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:47 +0000
Subject: [PATCH 48/67] fix: walking the fixed fields of a schema backward from
 its very end missed the last field

---
 src/schema.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schema.cxx b/src/schema.cxx
index b320fd5..27740b9 100644
--- a/src/schema.cxx
+++ b/src/schema.cxx
@@ -348,6 +348,10 @@ schema::search_preplaced(const ptrdiff_t offset) const cxx11_noexcept {
   size_t span = number_of_preplaced();
   assert(span <= sorted_tokens_.size());
 
+  /* Последнее поле может заканчиваться за пределами допустимых смещений */
+  if (unlikely(offset > ptrdiff_t(details::max_preplaced_offset)))
+    return sorted_tokens_.begin() + span;
+
   /* Смещение prelaced-поля в старших битах тэга и токена, поэтому для поиска
    * нормализация НЕ требуется, ибо дополнительные флаги не меняют порядка */
   const details::tag_t tag(
-- 
2.43.0


From 445f73822406d65ec84dde13cda59cca66b4ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:27 +0000
Subject: [PATCH 49/67] simulation hook: processor features and tick counter
 come from the simulator under FPTU_SIM

---
 src/1Hippeus/hipagut.cxx  |  9 ++++++++-
 src/cpu_features_ia32.cxx | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/1Hippeus/hipagut.cxx b/src/1Hippeus/hipagut.cxx
index adc4254..efbdfaa 100644
--- a/src/1Hippeus/hipagut.cxx
+++ b/src/1Hippeus/hipagut.cxx
@@ -28,11 +28,18 @@
 #include "fast_positive/tuples/details/bug.h"
 
 #include <time.h>
+
+#ifdef FPTU_SIM /* deterministic simulation: the tick counter is simulated */
+extern "C" uint64_t fptu_sim_ticks(void);
+#endif
+
 static __always_inline std::size_t ticks() {
   /* TODO: use libmera */
   uint64_t u64;
 
-#if defined(EMSCRIPTEN)
+#if defined(FPTU_SIM)
+  u64 = fptu_sim_ticks();
+#elif defined(EMSCRIPTEN)
   u64 = emscripten_get_now() * 1e6;
 #elif defined(__e2k__) || defined(__elbrus__)
   u64 = __rdtsc();
diff --git a/src/cpu_features_ia32.cxx b/src/cpu_features_ia32.cxx
index d785a47..8d3a9c6 100644
--- a/src/cpu_features_ia32.cxx
+++ b/src/cpu_features_ia32.cxx
@@ -67,6 +67,24 @@ static __inline unsigned __get_cpuid_max(unsigned __ext, unsigned *__sig) {
 }
 #endif /* Crutch for Intel Compiler (copy&paste from GCC's cpuid.h file */
 
+#ifdef FPTU_SIM /* deterministic simulation: the processor is simulated */
+extern "C" void fptu_sim_cpuid(uint32_t leaf, uint32_t subleaf,
+                               uint32_t regs[4]);
+static uint32_t sim_cpuid_max(uint32_t leaf) {
+  uint32_t regs[4];
+  fptu_sim_cpuid(leaf, 0, regs);
+  return regs[0];
+}
+#define __get_cpuid_max(leaf, sig) sim_cpuid_max(leaf)
+#undef __cpuid_count
+#define __cpuid_count(leaf, subleaf, a, b, c, d)                               \
+  do {                                                                         \
+    uint32_t regs[4];                                                          \
+    fptu_sim_cpuid(leaf, subleaf, regs);                                       \
+    a = regs[0], b = regs[1], c = regs[2], d = regs[3];                        \
+  } while (0)
+#endif /* FPTU_SIM */
+
 void ia32_cpu_features::clear() { memset(this, 0, sizeof(ia32_cpu_features)); }
 
 bool ia32_cpu_features::fetch() {
-- 
2.43.0


From 6345b864ff18f3b307052fd6ea63f215ee02f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 50/67] fix: a failure to read the clock was reported with a
 meaningless error code

---
 src/time.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/time.cxx b/src/time.cxx
index ca0ee7f..9853478 100644
--- a/src/time.cxx
+++ b/src/time.cxx
@@ -17,6 +17,8 @@
 
 #include "fast_positive/tuples/internal.h"
 
+#include <cerrno>
+
 #if defined(_WIN32) || defined(_WIN64) || defined(_WINDOWS)
 #pragma warning(push, 1)
 #include "fast_positive/tuples/details/windows_mustdie.h"
@@ -41,9 +43,8 @@ fptu_datetime_C fptu_now_fine(void) {
   return fptu::datetime_t::from_filetime(filetime);
 #else  /* WINDOWS */
   struct timespec now;
-  int rc = clock_gettime(CLOCK_REALTIME, &now);
-  if (unlikely(rc != 0))
-    throw std::system_error(rc, std::system_category(),
+  if (unlikely(clock_gettime(CLOCK_REALTIME, &now) != 0))
+    throw std::system_error(errno, std::system_category(),
                             "clock_gettime(CLOCK_REALTIME) failed");
   return fptu_datetime_t::from_timespec(now);
 #endif /* ! WINDOWS */
@@ -84,12 +85,13 @@ fptu_datetime_C fptu_now_coarse(void) {
   return fptu::datetime_t::from_filetime(&filetime);
 #elif defined(CLOCK_REALTIME_COARSE)
   struct timespec now;
-  int rc = clock_gettime(coarse_clockid, &now);
-  if (unlikely(rc != 0))
+  if (unlikely(clock_gettime(coarse_clockid, &now) != 0)) {
+    const int err = errno /* could be changed while composing the message */;
     throw std::system_error(
-        rc, std::system_category(),
+        err, std::system_category(),
         fptu::format("clock_gettime(coarse_clockid=%ld) failed",
                      long(coarse_clockid)));
+  }
   return fptu::datetime_t::from_timespec(now);
 #else  /* CLOCK_REALTIME_COARSE */
   return fptu_now_fine();
-- 
2.43.0


From af42f43f6f75e69889dd40fc1327dced3597c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:22 +0000
Subject: [PATCH 51/67] fix: fptu_now() took a coarse reading several times
 less accurate than the bits requested

---
 src/time.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.cxx b/src/time.cxx
index 9853478..a8f1ec4 100644
--- a/src/time.cxx
+++ b/src/time.cxx
@@ -104,7 +104,7 @@ fptu_datetime_C fptu_now(int grain_ns) {
   if (grain_ns < 0) {
     if (likely(grain_ns > -32)) {
       mask <<= -grain_ns;
-      grain = 1u << -grain_ns;
+      grain = fptu::datetime_t::fractional2ns(UINT32_C(1) << -grain_ns);
     } else {
       mask = 0;
       grain = ~mask;
-- 
2.43.0


From fc44d206725f2fd9c7e959579593327b50e82138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:09 +0000
Subject: [PATCH 52/67] fix: the AVX index search read past the end of the
 index and depended on the denormals mode of the caller

---
 src/scan_AVX.cxx | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/scan_AVX.cxx b/src/scan_AVX.cxx
index 55c768b..996345d 100644
--- a/src/scan_AVX.cxx
+++ b/src/scan_AVX.cxx
@@ -33,22 +33,26 @@ namespace fptu {
 namespace details {
 
 #if __SANITIZE_ADDRESS__
-static __m256i __attribute__((no_sanitize_address, noinline))
-bypass_asan_read_m256(const void *src) {
-  return _mm256_loadu_si256((const __m256i *)src);
+static __m128i __attribute__((no_sanitize_address, noinline))
+bypass_asan_read_m128(const void *src) {
+  return _mm_loadu_si128((const __m128i *)src);
 }
-#define _mm256_loadu_si256(ptr) bypass_asan_read_m256(ptr)
+#define _mm_loadu_si128(ptr) bypass_asan_read_m128(ptr)
 #endif
 
-static __always_inline unsigned cmp2mask(const __m256 pattern,
+/* LY: AVX не предоставляет 256-битного целочисленного сравнения, а сравнение
+ * в плавающей точке зависит от режима DAZ, так как короткие целые выглядят
+ * денормализованными числами. Кроме этого, нельзя читать далее конца последнего
+ * элемента, ибо за ним может быть граница страницы. */
+static __always_inline unsigned cmp2mask(const __m128i pattern,
                                          const field_loose *scan) {
-  const char *ptr = (const char *)scan + 2;
-  const __m256 even = _mm256_castsi256_ps(_mm256_set1_epi32(0x0000ffffu));
-  return _mm256_movemask_ps(_mm256_cmp_ps(
-      pattern,
-      _mm256_and_ps(
-          even, _mm256_castsi256_ps(_mm256_loadu_si256((const __m256i *)ptr))),
-      _CMP_EQ_OQ));
+  const __m128i lo =
+      _mm_cmpeq_epi16(pattern, _mm_loadu_si128((const __m128i *)scan));
+  const __m128i hi =
+      _mm_cmpeq_epi16(pattern, _mm_loadu_si128((const __m128i *)(scan + 4)));
+  const __m128i pair =
+      _mm_packs_epi32(_mm_srai_epi32(lo, 16), _mm_srai_epi32(hi, 16));
+  return _mm_movemask_epi8(_mm_packs_epi16(pair, _mm_setzero_si128()));
 }
 
 static __always_inline bool mask2ptr(unsigned mask, const field_loose *&ptr) {
@@ -80,14 +84,7 @@ __hot const field_loose *fptu_scan_AVX(const field_loose *begin,
   const ptrdiff_t bytes = (char *)end - (char *)begin;
   assert(bytes % 4 == 0);
 
-  const __m256 pattern =
-#if 1 /* LY: avoid store to temporary on the stack */
-      _mm256_permute2f128_ps(_mm256_castps128_ps256(_mm_castsi128_ps(
-                                 _mm_set1_epi32(genus_and_id))),
-                             _mm256_undefined_ps(), 0);
-#else
-      _mm256_castsi256_ps(_mm256_set1_epi32(genus_and_id));
-#endif
+  const __m128i pattern = _mm_set1_epi16(genus_and_id);
   const field_loose *scan = begin;
 
   if (unlikely(bytes < 8 * 4)) {
-- 
2.43.0


From 38793cfcf8fdec5570fb007370dc44dfcf40fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:52 +0000
Subject: [PATCH 53/67] fix: AVX was used on a machine whose operating system
 does not keep the wide registers

---
 src/cpu_features_ia32.cxx | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cpu_features_ia32.cxx b/src/cpu_features_ia32.cxx
index 8d3a9c6..7f2edb3 100644
--- a/src/cpu_features_ia32.cxx
+++ b/src/cpu_features_ia32.cxx
@@ -85,6 +85,18 @@ static uint32_t sim_cpuid_max(uint32_t leaf) {
   } while (0)
 #endif /* FPTU_SIM */
 
+static uint32_t fetch_xcr0() {
+#if defined(__GNUC__) || defined(__clang__)
+  uint32_t eax, edx;
+  __asm__ volatile("xgetbv" : "=a"(eax), "=d"(edx) : "c"(0));
+  return eax;
+#elif defined(_MSC_VER)
+  return uint32_t(_xgetbv(0));
+#else
+  return 0;
+#endif
+}
+
 void ia32_cpu_features::clear() { memset(this, 0, sizeof(ia32_cpu_features)); }
 
 bool ia32_cpu_features::fetch() {
@@ -150,6 +162,14 @@ bool ia32_cpu_features::fetch() {
 #warning "FIXME: Unsupported compiler"
 #endif
 
+  /* Наличия AVX у процессора недостаточно, сохранение YMM-регистров
+   * должна поддерживать и включить операционная система. */
+  const uint32_t OSXSAVE = 1u << 27, FMA = 1u << 12, AVX = 1u << 28;
+  if ((basic.ecx & OSXSAVE) == 0 || (fetch_xcr0() & 6) != 6) {
+    basic.ecx &= ~(FMA | AVX);
+    extended_7.ebx &= ~(/* AVX2 */ 1u << 5);
+  }
+
   return rc;
 }
 
-- 
2.43.0


From b8f14dbe754369ed16c7db90d70afa9fc11123e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:52 +0000
Subject: [PATCH 54/67] simulation hook: the enabled processor state comes from
 the simulator under FPTU_SIM

---
 src/cpu_features_ia32.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cpu_features_ia32.cxx b/src/cpu_features_ia32.cxx
index 7f2edb3..a8f50fd 100644
--- a/src/cpu_features_ia32.cxx
+++ b/src/cpu_features_ia32.cxx
@@ -70,6 +70,7 @@ static __inline unsigned __get_cpuid_max(unsigned __ext, unsigned *__sig) {
 #ifdef FPTU_SIM /* deterministic simulation: the processor is simulated */
 extern "C" void fptu_sim_cpuid(uint32_t leaf, uint32_t subleaf,
                                uint32_t regs[4]);
+extern "C" uint64_t fptu_sim_xgetbv(void);
 static uint32_t sim_cpuid_max(uint32_t leaf) {
   uint32_t regs[4];
   fptu_sim_cpuid(leaf, 0, regs);
@@ -86,7 +87,9 @@ static uint32_t sim_cpuid_max(uint32_t leaf) {
 #endif /* FPTU_SIM */
 
 static uint32_t fetch_xcr0() {
-#if defined(__GNUC__) || defined(__clang__)
+#if defined(FPTU_SIM)
+  return uint32_t(fptu_sim_xgetbv());
+#elif defined(__GNUC__) || defined(__clang__)
   uint32_t eax, edx;
   __asm__ volatile("xgetbv" : "=a"(eax), "=d"(edx) : "c"(0));
   return eax;
-- 
2.43.0


From fc0b2ec3e463d5f6fce9596fd10338cbb08233f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:53 +0000
Subject: [PATCH 55/67] fix: keep NaN and infinity distinguishable in the
 library build

---
 src/CMakeLists.txt | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 65d3728..01d231c 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -224,7 +224,8 @@ else()
 endif()
 
 if(CC_HAS_FASTMATH)
-  target_compile_options(${fptu_target} PRIVATE "-ffast-math")
+  # NaN and infinity are legal field values, so both must be distinguished.
+  target_compile_options(${fptu_target} PRIVATE "-ffast-math" "-fno-finite-math-only")
 endif()
 
 if(BUILD_FOR_NATIVE_CPU AND CC_HAS_ARCH_NATIVE)
-- 
2.43.0


From ab3b50748b96389dfe291c4234b62b2dedfe6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:31 +0000
Subject: [PATCH 56/67] fix: constant ranges of a writable tuple's collection
 did not compile

---
 fast_positive/tuples/details/rw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index cdbc21a..4988dc2 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -956,7 +956,7 @@ public:
     }
 
     operator collection_iterator_ro<TOKEN>() const cxx11_noexcept {
-      return collection_iterator_ro<TOKEN>(accessor::field_.const_loose,
+      return collection_iterator_ro<TOKEN>(static_cast<const field_loose *>(accessor::field_),
                                            accessor::tuple_->end_index(),
                                            accessor::token_);
     }
@@ -992,12 +992,12 @@ public:
     }
 
     cxx11_constexpr operator const_range() const cxx11_noexcept {
-      return const_range(iterator::field_.const_loose,
+      return const_range(static_cast<const field_loose *>(iterator::field_),
                          iterator::tuple_->end_index(), iterator::token_);
     }
 
     cxx14_constexpr const const_iterator begin() const cxx11_noexcept {
-      return const_iterator(iterator::field_.const_loose,
+      return const_iterator(static_cast<const field_loose *>(iterator::field_),
                             iterator::tuple_->end_index(), iterator::token_);
     }
     cxx14_constexpr const_iterator end() const cxx11_noexcept {
-- 
2.43.0


From 1a7c9e4f9acae3775a61707d5ce6a5de675f9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:31 +0000
Subject: [PATCH 57/67] fix: suffix increments and decrements of iterators did
 not move them

---
 fast_positive/tuples/details/getter.h |  4 ++--
 fast_positive/tuples/details/ro.h     | 20 ++++++++++++--------
 fast_positive/tuples/details/rw.h     |  4 ++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 83d8bdc..9b58f9b 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -492,9 +492,9 @@ public:
                             detent_, accessor::token_.tag());
     return *this;
   }
-  collection_iterator_ro operator++(int) const cxx11_noexcept {
+  collection_iterator_ro operator++(int) cxx11_noexcept {
     collection_iterator_ro iterator(*this);
-    ++iterator;
+    ++*this;
     return iterator;
   }
   cxx11_constexpr const accessor &operator*() const cxx11_noexcept {
diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 9d5143e..87e49b6 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -182,17 +182,19 @@ public:
     --field_;
     return *this;
   }
-  loose_iterator_ro operator++(int) const cxx11_noexcept {
+  loose_iterator_ro operator++(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return --iterator;
+    ++*this;
+    return iterator;
   }
   loose_iterator_ro &operator--() cxx11_noexcept {
     ++field_;
     return *this;
   }
-  loose_iterator_ro operator--(int) const cxx11_noexcept {
+  loose_iterator_ro operator--(int) cxx11_noexcept {
     loose_iterator_ro iterator(*this);
-    return ++iterator;
+    --*this;
+    return iterator;
   }
   loose_iterator_ro &operator+=(const difference_type shift) cxx11_noexcept {
     field_ -= shift;
@@ -504,14 +506,16 @@ public:
   }
 
   field_iterator_ro &operator++();
-  field_iterator_ro operator++(int) const {
+  field_iterator_ro operator++(int) {
     field_iterator_ro iterator(*this);
-    return ++iterator;
+    ++*this;
+    return iterator;
   }
   field_iterator_ro &operator--();
-  field_iterator_ro operator--(int) const {
+  field_iterator_ro operator--(int) {
     field_iterator_ro iterator(*this);
-    return --iterator;
+    --*this;
+    return iterator;
   }
 };
 
diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 4988dc2..da7d852 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -928,9 +928,9 @@ public:
                accessor::tuple_->end_index(), accessor::token_.tag());
       return *this;
     }
-    collection_iterator_rw operator++(int) const cxx11_noexcept {
+    collection_iterator_rw operator++(int) cxx11_noexcept {
       collection_iterator_rw iterator(*this);
-      ++iterator;
+      ++*this;
       return iterator;
     }
     cxx14_constexpr accessor operator*() const cxx11_noexcept {
-- 
2.43.0


From 18e2e70c025d03d7ace2682ca18946ad7c62b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:30 +0000
Subject: [PATCH 58/67] fix: indexing a loose iterator took the type of another
 field

---
 fast_positive/tuples/details/ro.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_positive/tuples/details/ro.h b/fast_positive/tuples/details/ro.h
index 87e49b6..eee3bf2 100644
--- a/fast_positive/tuples/details/ro.h
+++ b/fast_positive/tuples/details/ro.h
@@ -79,15 +79,16 @@ public:
 
   cxx14_constexpr dynamic_accessor_ro
   operator[](const difference_type index) const cxx11_noexcept {
+    const loose_iterator_ro target(field_ - index);
     return dynamic_accessor_ro(
-        field_ - index,
+        target.field_,
         /* При чтении можно обойтись без всех token-флажков:
            - is_collection: не имеет значения при чтении одного текущего
              экземпляра поля.
            - is_discernible_null: не имеет значения, ибо точно знаем что
              loose-поле есть.
            - is_rangechecking/is_saturated: не нужен при чтении. */
-        field_token(false, false, false));
+        target.field_token(false, false, false));
   }
   cxx14_constexpr dynamic_accessor_ro operator*() const cxx11_noexcept {
     return operator[](0);
-- 
2.43.0


From c7609192df6d2c56e9c917c777df3e6ca4daa766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 59/67] fix: erase() by a compile-time token did not compile

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index da7d852..8fea6f0 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1087,7 +1087,7 @@ public: //----------------------------------------------------------------------
   FPTU_TEMPLATE_FOR_STATIC_TOKEN
   bool erase(const TOKEN &ident) {
     return likely(!ident.is_collection()) ? remove(ident)
-                                          : erase(collection(ident)) > 0;
+                                          : erase(token(ident));
   }
   bool erase(const token &ident);
   __pure_function const char *audit() const cxx11_noexcept {
-- 
2.43.0


From ffd8f35372c692c623cac685f79009e47ce02044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:37 +0000
Subject: [PATCH 60/67] fix: the removal of a field was declared as a function
 without side effects

---
 fast_positive/tuples/details/rw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_positive/tuples/details/rw.h b/fast_positive/tuples/details/rw.h
index 8fea6f0..aa81803 100644
--- a/fast_positive/tuples/details/rw.h
+++ b/fast_positive/tuples/details/rw.h
@@ -1039,7 +1039,7 @@ private:
     return accessor_rw<TOKEN>(this, static_cast<field_loose *>(nullptr), token);
   }
 
-  template <typename TOKEN> __pure_function bool remove(const TOKEN &token) {
+  template <typename TOKEN> bool remove(const TOKEN &token) {
     accessor_rw<TOKEN> accessor(
         this, crtp_getter::template at<TOKEN, true>(*this, token));
     if (accessor.exist()) {
-- 
2.43.0


From 45d7a861f785eaccc8e7e6c5ce86d71e563e307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:01 +0000
Subject: [PATCH 61/67] fix: fptu_field_cstr() must check the type before
 touching the payload

For a field of another type the inplaced value was taken as an offset and memory far outside of the tuple was read (and could crash).
---
 src/compat_field.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 089cf4c..197210f 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -128,11 +128,14 @@ static const char *string_view_to_CAPI(const fptu::string_view &value,
 
 namespace fptu {
 const char *field_cstr(const fptu_field *pf) {
+  /* checks the type, so must be before any access to the payload */
+  const string_view value = details::get<genus::text>(pf, true);
+  if (value.empty())
+    return FPTU_DENIL_CSTR;
   const auto payload = pf->relative.payload();
   const char *const field_end = erthink::constexpr_pointer_cast<const char *>(
       payload->flat + payload->stretchy.string.brutto_units());
-  return string_view_to_CAPI(fptu::details::get<fptu::genus::text>(pf, true),
-                             field_end);
+  return string_view_to_CAPI(value, field_end);
 }
 } // namespace fptu
 
-- 
2.43.0


From 844f6d3b25bd1097bf2f07dd2a1b66c6639289f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:26 +0000
Subject: [PATCH 62/67] fix: audit must notice lost space in a tuple without
 loose values

Such an image was accepted, but adding a field to it made a tuple which the library itself rejects afterwards.
---
 src/audit.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/audit.cxx b/src/audit.cxx
index 7d6d822..d46cb33 100644
--- a/src/audit.cxx
+++ b/src/audit.cxx
@@ -367,6 +367,9 @@ __hot const char *audit_tuple(const fptu::schema *const schema,
           return AUDIT_FAILURE("tuple have unmerged adjacent holes");
       }
     }
+  } else if (unlikely(ptrdiff_t(bytes2units(preplaced_bytes)) !=
+                      payload_end - payload_begin)) {
+    return AUDIT_FAILURE("lose space at the end of tuple");
   }
 
   if ((flags & audit_flags::audit_tuple_sorted_loose) != 0 &&
-- 
2.43.0


From 7ab4c1f6b5ea684028bd6319d08631ee8f78d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:58 +0000
Subject: [PATCH 63/67] fix: fptu_get_cstr() must not rely on zeroed padding

The audit doesn't check padding behind a text, so an accepted image could lead to a c-string without an end inside of the tuple.
---
 src/compat_field.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compat_field.cxx b/src/compat_field.cxx
index 197210f..2a91cf2 100644
--- a/src/compat_field.cxx
+++ b/src/compat_field.cxx
@@ -116,10 +116,10 @@ static const char *string_view_to_CAPI(const fptu::string_view &value,
 
   const char *const cstr_begin = value.data();
   const char *const cstr_end = value.end();
-  if (cstr_end < detend) {
-    assert(*cstr_end == '\0');
+  /* the padding isn't zeroed necessarily, in particular inside a tuple which
+   * came from outside */
+  if (cstr_end < detend && *cstr_end == '\0')
     return cstr_begin;
-  }
 
   holder.assign(cstr_begin, cstr_end);
   assert(holder.c_str()[holder.length()] == '\0');
-- 
2.43.0


From d4bea900b6cb332d0d0b7ca75b40304f1dd70412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:08 +0000
Subject: [PATCH 64/67] fix: growth of a managed tuple without a hippeus buffer
 miscounted its space

The number of units in the reallocated block was taken as a remainder
instead of a quotient, and the assertions after it were inverted.
---
 src/autogrowth.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autogrowth.cxx b/src/autogrowth.cxx
index 94f8c5a..6ce170d 100644
--- a/src/autogrowth.cxx
+++ b/src/autogrowth.cxx
@@ -151,13 +151,13 @@ void tuple_rw_managed::manage_space_deficit(const insufficient_space &wanna) {
     pimpl_->end_ = unsigned(std::min(
         ptrdiff_t(max_tuple_units_netto),
         erthink::constexpr_pointer_cast<details::unit_t *>(new_legacy_buffer) +
-            growth_space % fundamentals::unit_size - pimpl_->area_));
+            growth_space / fundamentals::unit_size - pimpl_->area_));
     debug_check();
 
     /* Память перевыделенна. Теперь должно быть достаточно места для данных, но
      * для расширения места под индекс потроха кортежа нужно передвинуть. */
-    assert(wanna.data_space >= pimpl_->end_ - pimpl_->tail_);
-    assert(wanna_units >= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
+    assert(wanna.data_space <= pimpl_->end_ - pimpl_->tail_);
+    assert(wanna_units <= pimpl_->end_ - pimpl_->tail_ + pimpl_->head_);
     if (growth_index > pimpl_->pivot_) {
       /* Недостаточно места для индекса, перемещаем всё назад */
       const ptrdiff_t shift = growth_index - pimpl_->pivot_;
-- 
2.43.0


From 6406eff0361e8f2510bc44b53a62b012fbdd4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:08 +0000
Subject: [PATCH 65/67] fix: creating a tuple without an allot must report the
 lack of memory

---
 src/rw.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rw.cxx b/src/rw.cxx
index d566df1..e2c18e8 100644
--- a/src/rw.cxx
+++ b/src/rw.cxx
@@ -681,7 +681,7 @@ tuple_rw *tuple_rw::create_new(std::size_t items_limit, std::size_t data_bytes,
 
   std::unique_ptr<void, malloc_deleter> ptr(::malloc(buffer_size));
   if (unlikely(!ptr))
-    return nullptr;
+    throw std::bad_alloc();
   tuple_rw *rw = new (ptr.get()) tuple_rw(0, buffer_size, items_limit, schema);
   ptr.release();
   return rw;
@@ -771,7 +771,7 @@ tuple_rw *tuple_rw::create_from_ro(const audit_holes_info &holes_info,
 
   std::unique_ptr<void, malloc_deleter> ptr(::malloc(buffer_size));
   if (unlikely(!ptr))
-    return nullptr;
+    throw std::bad_alloc();
   tuple_rw *rw = new (ptr.get())
       tuple_rw(holes_info, ro, 0, buffer_size, more_items, schema);
   ptr.release();
-- 
2.43.0


From 4457a4c0f499587efcce067124b625b38985f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:44 +0000
Subject: [PATCH 66/67] fix: get_int128() and get_uint128() returned a
 reference to a temporary

and the payload of a field may be unaligned for a 128-bit load.
---
 fast_positive/tuples.h                | 8 ++++----
 fast_positive/tuples/details/getter.h | 5 ++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/fast_positive/tuples.h b/fast_positive/tuples.h
index 46da85c..120fa45 100644
--- a/fast_positive/tuples.h
+++ b/fast_positive/tuples.h
@@ -270,8 +270,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
@@ -636,8 +636,8 @@ public:
   HERE_CRTP_MAKE(decimal64, get_decimal)
   HERE_CRTP_MAKE(datetime_t, get_datetime)
   HERE_CRTP_MAKE(const uuid_t &, get_uuid)
-  HERE_CRTP_MAKE(const int128_t &, get_int128)
-  HERE_CRTP_MAKE(const uint128_t &, get_uint128)
+  HERE_CRTP_MAKE(int128_t, get_int128)
+  HERE_CRTP_MAKE(uint128_t, get_uint128)
   HERE_CRTP_MAKE(const binary96_t &, get_bin96)
   HERE_CRTP_MAKE(const binary128_t &, get_bin128)
   HERE_CRTP_MAKE(const binary160_t &, get_bin160)
diff --git a/fast_positive/tuples/details/getter.h b/fast_positive/tuples/details/getter.h
index 9b58f9b..eef5329 100644
--- a/fast_positive/tuples/details/getter.h
+++ b/fast_positive/tuples/details/getter.h
@@ -415,14 +415,13 @@ public:
 
   cxx14_constexpr int128_t get_int128() const {
     if (type() == bin128)
-      return *erthink::constexpr_pointer_cast<const int128_t *>(&get<bin128>());
+      return get_bin128().i128 /* может быть не выровнено */;
     else
       return int128_t(get_integer());
   }
   cxx14_constexpr uint128_t get_uint128() const {
     if (type() == bin128)
-      return *erthink::constexpr_pointer_cast<const uint128_t *>(
-          &get<bin128>());
+      return get_bin128().u128 /* может быть не выровнено */;
     else
       return uint128_t(get_unsigned());
   }
-- 
2.43.0


From fbd44891d2a216a76fba91b133578ec835e3c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:37 +0000
Subject: [PATCH 67/67] fix: a tuple of the extreme scale could not be created
 with schema-placed fields

---
 src/managed.cxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/managed.cxx b/src/managed.cxx
index 491048a..23a1e57 100644
--- a/src/managed.cxx
+++ b/src/managed.cxx
@@ -62,6 +62,15 @@ std::size_t estimate_space_for_tuple(const initiation_scale &scale,
                                                     data_bytes, schema);
 }
 
+static size_t scale2data_bytes(const initiation_scale scale,
+                               const fptu::schema *schema) {
+  /* вместе с preplaced-полями данные не должны превышать предельный размер */
+  const size_t preplaced_bytes = schema ? schema->preplaced_bytes() : 0;
+  return std::min(size_t(scale2bytes[scale]),
+                  max_tuple_bytes_netto -
+                      std::min(size_t(max_tuple_bytes_netto), preplaced_bytes));
+}
+
 //------------------------------------------------------------------------------
 
 tuple_rw_fixed::tuple_rw_fixed(const defaults &)
@@ -72,8 +81,8 @@ tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale)
 tuple_rw_fixed::tuple_rw_fixed(const initiation_scale scale,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-    : tuple_rw_fixed(scale2items[scale], scale2bytes[scale], schema,
-                     allot_tag) {}
+    : tuple_rw_fixed(scale2items[scale], scale2data_bytes(scale, schema),
+                     schema, allot_tag) {}
 tuple_rw_fixed::tuple_rw_fixed(std::size_t items_limit, std::size_t data_bytes,
                                const fptu::schema *schema,
                                const hippeus::buffer_tag &allot_tag)
-- 
2.43.0

