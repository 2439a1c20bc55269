From d73fbea498eed31ab949d2ddee1546f080c1db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 001/178] fix: BLArray assign_data allocates by the old size
 and overflows the new buffer

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..4a91ba6 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -883,7 +883,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
-- 
2.43.0


From 3127f616facf483a448b3fb9c8419c54721a71ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 002/178] fix: BLArray assign_data left the items past the old
 size of an object array uninitialized

---
 blend2d/core/array.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 4a91ba6..a4aaabf 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -902,7 +902,10 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     const uint8_t* src = static_cast<const uint8_t*>(items);
 
     assign_content_objects(u.data, src, replace_size * item_size);
-    release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
+    if (n > u.size)
+      init_content_objects(u.data + replace_size * item_size, src + replace_size * item_size, (n - replace_size) * item_size);
+    else
+      release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
 
     return BL_SUCCESS;
   }
-- 
2.43.0


From 2a760ad179eeb63fc41acbf5b794871c887fb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 003/178] fix: truncating an object BLArray released the items
 that were kept instead of the removed ones

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index a4aaabf..ed5e67f 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -577,7 +577,7 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
     }
     else {
       set_size(self, n);
-      release_content_by_type(u.data, (u.size - n) * item_size, array_type);
+      release_content_by_type(u.data + n * item_size, (u.size - n) * item_size, array_type);
       return BL_SUCCESS;
     }
   }
-- 
2.43.0


From bc8db03264818e70051bdae532ce475364001561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 004/178] fix: BLArray replace_data did not move the tail,
 check the capacity, or detect aliased items

---
 blend2d/core/array.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index ed5e67f..f94b6c1 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1188,9 +1188,12 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
   size_t item_size = item_size_from_array_type(array_type);
 
   size_t tail_size = u.size - end;
-  size_t size_after = u.size - range_size + n;
+  size_t size_after = bl::IntOps::uadd_saturate(u.size - range_size, n);
 
-  if (is_instance_mutable(self)) {
+  if (BL_UNLIKELY(size_after > maximum_capacity_table[array_type]))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
+  if (is_instance_mutable(self) && size_after <= u.capacity) {
     // 0           |<-Start   End->|          | <- Size
     // ^***********^***************^**********^
     // | Unchanged |  Replacement  | TailSize |
@@ -1201,14 +1204,14 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(items_ptr >= u.data + u.size * item_size || items_end <= u.data)) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
         set_size(self, size_after);
       }
-- 
2.43.0


From 52e6ced6db4bd6b9d18c92202e0591b5bef71978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 005/178] fix: object arrays leaked their items when the last
 reference was released

---
 blend2d/core/array.cpp  | 10 +++++++---
 blend2d/core/array_p.h  | 10 +++++-----
 blend2d/core/object.cpp |  2 +-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index f94b6c1..d23a0ba 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -302,9 +302,11 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   return replace_instance(self, &newO);
 }
 
-BLResult free_impl(BLArrayImpl* impl) noexcept {
+BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
   if (ObjectInternal::is_impl_external(impl))
     ObjectInternal::call_external_destroy_func(impl, impl->data);
+  else
+    release_content_by_type(impl->data, impl->size * item_size_from_array_type(array_type), array_type);
   return ObjectInternal::free_impl(impl);
 }
 
@@ -764,8 +766,10 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     if (self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
       // Use memcpy() instead of weak copying if the original data is gonna be destroyed.
       memcpy(dst, u.data, index * item_size);
-      // We have to patch the source Impl as release_instance() as we have moved the content.
-      get_impl(self)->size = 0;
+      // We have to patch the source Impl as release_instance() as we have moved the content. Assign doesn't move
+      // anything, in that case the old content is released together with the source Impl.
+      if (index)
+        get_impl(self)->size = 0;
     }
     else {
       init_content_by_type(dst, u.data, index * item_size, array_type);
diff --git a/blend2d/core/array_p.h b/blend2d/core/array_p.h
index 410c40a..adea4df 100644
--- a/blend2d/core/array_p.h
+++ b/blend2d/core/array_p.h
@@ -23,11 +23,11 @@ static BL_INLINE bool is_impl_mutable(const BLArrayImpl* impl) noexcept {
   return ObjectInternal::is_impl_mutable(impl);
 }
 
-BL_HIDDEN BLResult free_impl(BLArrayImpl* impl) noexcept;
+BL_HIDDEN BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept;
 
 template<RCMode kRCMode>
-static BL_INLINE BLResult release_impl(BLArrayImpl* impl) noexcept {
-  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl) : BLResult(BL_SUCCESS);
+static BL_INLINE BLResult release_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl, array_type) : BLResult(BL_SUCCESS);
 }
 
 //! \}
@@ -56,7 +56,7 @@ static BL_INLINE BLResult retain_instance(const BLArrayCore* self, size_t n = 1)
 }
 
 static BL_INLINE BLResult release_instance(BLArrayCore* self) noexcept {
-  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self)) : BLResult(BL_SUCCESS);
+  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self), self->_d.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore* other) noexcept {
@@ -65,7 +65,7 @@ static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore*
   BLObjectInfo info = self->_d.info;
 
   self->_d = other->_d;
-  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl)) : BLResult(BL_SUCCESS);
+  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl), info.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 //! \}
diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index aca6a10..e1a5c62 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -148,7 +148,7 @@ BLResult bl_object_destroy_unknown_impl(BLObjectImpl* impl, BLObjectInfo info) n
     case BL_OBJECT_TYPE_ARRAY_STRUCT_20:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_24:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_32:
-      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl));
+      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl), type);
 
     case BL_OBJECT_TYPE_BIT_SET:
       // NOTE: It's guaranteed that this BitSet is dynamic, so we don't have to correct the type.
-- 
2.43.0


From f62de079ffa46df52a43178203830c0cf67770d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 006/178] fix: BLArray modify_op overflowed the allocation size
 for unsatisfiable sizes

---
 blend2d/core/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index d23a0ba..d151772 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -759,6 +759,9 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     return replace_instance(self, &newO);
   }
   else {
+    if (BL_UNLIKELY(size_after > maximum_capacity_table[array_type]))
+      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
     BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after, item_size), op);
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
-- 
2.43.0


From fc5600c9190d9d8a7f162d9ac057d6d6f051c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 007/178] fix: resizing a BLArray with a fill item taken from
 the same array read released memory

---
 blend2d/core/array.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index d151772..91ba2be 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -587,6 +587,15 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
   // `n` becames the number of items to add to the array.
   n -= u.size;
 
+  // Copy the fill item as it can point to the content of `self`, which could be reallocated.
+  uint64_t fill_item[4];
+  BL_ASSERT(item_size <= sizeof(fill_item));
+
+  if (fill) {
+    memcpy(fill_item, fill, item_size);
+    fill = fill_item;
+  }
+
   void* dst;
   BL_PROPAGATE(bl_array_modify_op(self, BL_MODIFY_OP_APPEND_FIT, n, &dst));
 
-- 
2.43.0


From 1c1a70a956fc5a53cc34293776f2e7b824b00ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 008/178] fix: assigning a short value to a shared BLString
 read an uninitialized instance

---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..446d229 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From c6691764f77f4871774e2e5708c70d3cc132b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 009/178] fix: BLString reserve overflowed the allocation size
 for unsatisfiable capacities

---
 blend2d/core/string.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 446d229..b79a405 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -390,6 +390,9 @@ BL_API_IMPL BLResult bl_string_reserve(BLStringCore* self, size_t n) noexcept {
   if ((n | immutable_mask) <= u.capacity)
     return BL_SUCCESS;
 
+  if (BL_UNLIKELY(n > get_maximum_size()))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   BLStringCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size_from_capacity(bl_max(u.size, n)), u.size));
 
-- 
2.43.0


From 3f892f84131bd4acb5a701eedd1b5f9207c10f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 010/178] fix: BLBitArray::reserve() resized the array

---
 blend2d/core/bitarray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.h b/blend2d/core/bitarray.h
index 5fa6406..e705716 100644
--- a/blend2d/core/bitarray.h
+++ b/blend2d/core/bitarray.h
@@ -265,7 +265,7 @@ public:
   BL_INLINE_NODEBUG BLResult resize(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
 
   //! Reserves `n_bits` in the BitArray (capacity would match `n_bits`) without changing its size.
-  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
+  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_reserve(this, n_bits); }
 
   //! Shrinks the capacity of the BitArray to match the actual content with the intention to save memory.
   BL_INLINE_NODEBUG BLResult shrink() noexcept { return bl_bit_array_shrink(this); }
-- 
2.43.0


From ace7a1f2874ab5978a92d906e1df2bfbbc42c64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 011/178] fix: reserving less than the size of a shared
 BLBitArray overflowed the new allocation

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..7f7e9c9 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -706,7 +706,7 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(bl_max<size_t>(n_bits, d.size)));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
-- 
2.43.0


From 14980f64cf7ddfbd9a2ea2999f89b22290cf3acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 012/178] fix: growing a BLBitArray by resize left the added
 words uninitialized

---
 blend2d/core/bitarray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 7f7e9c9..66bea86 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -679,6 +679,7 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   if (last_word_bit_count)
     dst[word_count - 1] &= bl::BitArrayOps::non_zero_start_mask(last_word_bit_count);
 
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
   return replace_instance(self, &newO);
 }
 
-- 
2.43.0


From 55da965a8b41fe3eda874c9ef0251e998c8b17cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 013/178] fix: modifying a shared BLBitArray lost its content

---
 blend2d/core/bitarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 66bea86..0f4ab31 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -96,12 +96,14 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     BLBitArrayCore newO;
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count_from_bit_count(size));
 
       *out = BitData{self->_d.u32_data, size};
       return replace_instance(self, &newO);
     }
 
     BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count_from_bit_count(size));
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
-- 
2.43.0


From 746a4007b13718de054203de0421f5d60aef6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 014/178] fix: unaligned BLBitArray word operations dropped or
 over-read trailing bits

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 0f4ab31..c6e2025 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -230,7 +230,7 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
 
   uint32_t last_word_bits = BitArrayOps::shift_to_start(w, bit_shift_inv);
-  if (bit_shift_inv < bit_count)
+  if (bit_shift < bit_count)
     last_word_bits |= BitArrayOps::shift_to_end(word_data[i], bit_shift);
 
   dst[i] = BitOp::op_masked(dst[i], last_word_bits, BitArrayOps::non_zero_start_mask(bit_count));
-- 
2.43.0


From d7fdc243df05802e54d341f1452ef98a16a429b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 015/178] fix: BLBitArray has_bits_in_range read a word past a
 word-aligned end

---
 blend2d/core/bitarray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6e2025..57e21d6 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -454,6 +454,7 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
 
   size_t start_word = word_index_of(start);
   size_t end_word = word_index_of(end);
+  size_t end_bit_count = end & bl::BitArrayOps::kBitMask;
 
   if (start_word == end_word) {
     // Special case - the range is within a single BitWord.
@@ -469,7 +470,10 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     if (d.data[i])
       return true;
 
-  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end & bl::BitArrayOps::kBitMask);
+  if (end_bit_count == 0u)
+    return false;
+
+  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end_bit_count);
   return (d.data[end_word] & end_mask) != 0u;
 }
 
-- 
2.43.0


From 792291ba4a90e9fd8a78a8fd9fceae557e44e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 016/178] fix: BLBitArray assign_words lost the size and
 overflowed the inline storage

---
 blend2d/core/bitarray.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 57e21d6..eee3226 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -328,7 +328,13 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
     size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-    if ((word_count | immutable_msk) > capacity_in_words) {
+    if ((word_count | immutable_msk) <= capacity_in_words) {
+      self_impl->size = uint32_t(bit_count_from_word_count(word_count));
+      memmove(self_impl->data(), word_data, size_t(word_count) * sizeof(uint32_t));
+      return BL_SUCCESS;
+    }
+
+    if (word_count <= kSSOWordCapacity) {
       BLBitArrayCore newO;
       init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
       bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
@@ -338,7 +344,7 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
   }
 
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
+  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), bit_count_from_word_count(word_count)));
 
   BLBitArrayImpl* new_impl = get_impl(&newO);
   bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
-- 
2.43.0


From 0d6c27c3a421a46d7bd7b671aa8699aaba95b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 017/178] fix: get_range of an empty inline BLBitSet reported
 success

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index d7fc868..2fd98e2 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1798,7 +1798,7 @@ BL_API_IMPL bool bl_bit_set_get_range(const BLBitSetCore* self, uint32_t* start_
       Range range = get_sso_range(self);
       *start_out = range.start;
       *end_out = range.end;
-      return true;
+      return range.start < range.end;
     }
     else {
       SSODenseInfo info = get_sso_dense_info(self);
-- 
2.43.0


From 3a08a11baf2d31354556e076634bf0167f677315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 018/178] fix: BLBitSet add_range inserted overlapping segments
 and indexed outside of the inline storage

---
 blend2d/core/bitset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 2fd98e2..c87f70e 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2630,7 +2630,7 @@ BL_API_IMPL BLResult bl_bit_set_add_range(BLBitSetCore* self, uint32_t range_sta
         // necessary.
         uint32_t n = get_sso_word_count_from_data(self->_d.u32_data, info.word_count());
 
-        if ((range_last_word - range_start_word) < kSSOWordCount && range_last_word < iStartWord + n) {
+        if ((range_last_word - range_start_word) < kSSOWordCount && range_start_word + kSSOWordCount >= iStartWord + n) {
           uint32_t tmp[kSSOWordCount];
           bl::MemOps::copy_forward_inline_t(tmp, self->_d.u32_data, kSSOWordCount);
 
@@ -2790,8 +2790,8 @@ InitRange:
   if (segment_index < segment_count) {
     BLBitSetSegment& next = segment_data[segment_index];
     if (next.all_ones() && next.start_word() <= inserter.prev().start_word()) {
-      init_range_segment(inserter.current(), inserter.prev().start_word(), next.end_word());
-      inserter.advance();
+      // The last inserted segment overlaps the next Range segment, so it has to be replaced by it.
+      init_range_segment(inserter.prev(), inserter.prev().start_word(), next.end_word());
       segment_index++;
     }
   }
-- 
2.43.0


From 2b7a744060cb964052940e36fc39758081149a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 019/178] fix: BLBitSet shrink lost segments when it switched
 to the inline storage

---
 blend2d/core/bitset.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index c87f70e..df7903c 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2154,7 +2154,7 @@ static BLBitSetSegment* copy_optimized_segments(BLBitSetSegment* dst, const BLBi
 static bool test_segments_for_range(const BLBitSetSegment* segment_data, uint32_t segment_count, Range* out) noexcept {
   Range range{};
 
-  for (uint32_t i = 0; i < segment_count; i++) {
+  for (uint32_t i = 0; i < segment_count; i++, segment_data++) {
     uint32_t start_word = segment_data->start_word();
     uint32_t end_word = segment_data->end_word();
 
@@ -2224,7 +2224,10 @@ static BLResult optimize_internal(BLBitSetCore* self, bool shrink) noexcept {
     }
 
     // Try SSO dense representation.
-    if (optimized_segment_count <= 2) {
+    //
+    // NOTE: A Range segment always has more words than a SSO dense representation and it has no data to copy.
+    bool has_range = optimized_segment_data[0].all_ones() || (optimized_segment_count == 2 && optimized_segment_data[1].all_ones());
+    if (optimized_segment_count <= 2 && !has_range) {
       if (optimized_segment_count == 1 || optimized_segment_data[0].end_word() == optimized_segment_data[1].start_word()) {
         uint32_t optimized_word_data[kSegmentWordCount * 2];
         bl::MemOps::copy_forward_inline_t(optimized_word_data, optimized_segment_data[0].data(), kSegmentWordCount);
-- 
2.43.0


From 305058e085e2f3d48c881dcf13f58491d0f1f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 020/178] fix: BLBitSet chop read uninitialized words and lost
 the content of shared sets

---
 blend2d/core/bitset.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index df7903c..a7a5726 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2328,6 +2328,10 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
       uint32_t tmp[kSSOWordCount + 2];
       SSODenseInfo info = chop_sso_dense_data(self, tmp, start_bit, end_bit);
 
+      // Nothing remains if the range doesn't intersect with the data.
+      if (info.word_count() == 0)
+        return init_sso_empty(self);
+
       uint32_t i = 0;
       BL_NOUNROLL
       while (tmp[i] == 0)
@@ -2376,6 +2380,14 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
     BLBitSetCore tmp;
     BL_PROPAGATE(init_dynamic(&tmp, impl_size_from_capacity(final_count)));
 
+    BLBitSetImpl* tmp_impl = get_impl(&tmp);
+    BLBitSetSegment* tmp_data = tmp_impl->segment_data();
+
+    bl::MemOps::copy_forward_inline_t(tmp_data, chopped.leading_data(), chopped.leading_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count(), segment_data + chopped.middle_index(), chopped.middle_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count() + chopped.middle_count(), chopped.trailing_data(), chopped.trailing_count());
+    tmp_impl->segment_count = final_count;
+
     return replace_instance(self, &tmp);
   }
 }
-- 
2.43.0


From 9a14f321b5bbd7113be0b14c10a0b112e1a4ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 021/178] fix: BLBitSet clear_range cleared or kept wrong bits
 of range segments

---
 blend2d/core/bitset.cpp | 130 ++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 86 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index a7a5726..f04b2d8 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3327,7 +3327,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       uint32_t dense_first_word = word_index_of(rSSO.start);
       uint32_t dense_last_word = word_index_of(rSSO.end - 1u);
 
-      if (dense_first_word - dense_last_word < kSSOWordCount) {
+      if (dense_last_word - dense_first_word < kSSOWordCount) {
         init_sso_dense(self, dense_first_word);
         bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
         bl::BitSetOps::bit_array_clear(self->_d.u32_data, intersection.start - bit_index_of(dense_first_word), intersection.size());
@@ -3399,17 +3399,16 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
     uint32_t segment_start_word = segment.start_word();
     uint32_t segment_end_word = segment.end_word();
 
-    // Discard non-intersecting areas.
-    if (range_start_word < segment_start_word) {
-      range_start_word = segment_start_word;
-      range_start_bit = bit_index_of(range_start_word);
+    // Stop if this segment and all the following are after the range to clear.
+    if (segment_start_word > range_last_word)
+      break;
 
-      if (range_start_word > range_last_word)
-        break;
-    }
+    // Intersection of the range to clear with the segment.
+    uint32_t clear_start_bit = bl_max(range_start_bit, segment.start_bit());
+    uint32_t clear_last_bit = bl_min(range_end_bit - 1u, segment.last_bit());
 
     // If the range to clear completely overlaps this segment, remove it.
-    if (range_last_word >= segment_end_word && range_start_bit == segment.start_bit())
+    if (clear_start_bit == segment.start_bit() && clear_last_bit == segment.last_bit())
       continue;
 
     // The range to clear doesn't completely overlap this segment, so clear the bits required.
@@ -3429,96 +3428,55 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       // +--------+--------+--------+--------+                 +--------+--------+--------+--------+
       // |    New leading range     |DenseSeg| Cleared entirely|DenseSeg|    New trailing range    | <- Output Segments
       // +--------+--------+--------+--------+                 +--------+--------+--------+--------+
-      //
-      // NOTE: Every time we insert a new segment, `segment_start_word` gets updated to reflect the remaining slice.
-
-      // Handle a possible leading segment, which won't be cleared.
-      uint32_t range_start_segment_word = align_word_down_to_segment(range_start_word);
-      if (segment_start_word < range_start_segment_word) {
-        if (range_start_segment_word - segment_start_word >= kSegmentWordCount * 2) {
-          // If the leading range spans across two or more segments, insert a Range segment.
-          init_range_segment(inserter.current(), segment_start_word, range_start_segment_word);
-          inserter.advance();
-        }
-        else {
-          // If the learing range covers only a single segment, insert a Dense segment.
-          init_dense_segment_with_ones(inserter.current(), segment_start_word);
-          inserter.advance();
-        }
-
-        // NOTE: There must be an intersection. This is just a leading segment we have to keep, but it's guaranteed
-        // that at least one additional segment will be inserted. This is the main reason there is no `continue` here.
-        segment_start_word = range_start_segment_word;
-        BL_ASSERT(segment_start_word < segment_end_word);
-      }
+      uint32_t clear_start_segment_word = word_index_of(align_bit_down_to_segment(clear_start_bit));
+      uint32_t clear_last_segment_word = word_index_of(align_bit_down_to_segment(clear_last_bit));
 
-      // Handle the intersection with the beginning of the range to clear (if any), if it's not at the segment boundary.
-      if (!is_bit_aligned_to_segment(range_start_bit)) {
-        uint32_t dense_range_index = range_start_bit & kSegmentBitMask;
-        uint32_t dense_range_count = bl_min(kSegmentBitCount - dense_range_index, range_end_bit - range_start_bit);
+      // Inserts a Range segment if the slice to keep spans across two or more segments, otherwise a Dense segment.
+      auto insert_ones = [&](uint32_t first_word, uint32_t end_word) noexcept {
+        if (first_word >= end_word)
+          return;
 
-        init_dense_segment_with_ones(inserter.current(), segment_start_word);
-        bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
+        if (end_word - first_word >= kSegmentWordCount * 2)
+          init_range_segment(inserter.current(), first_word, end_word);
+        else
+          init_dense_segment_with_ones(inserter.current(), first_word);
         inserter.advance();
+      };
 
-        range_start_word = segment_start_word;
-        range_start_bit = bit_index_of(range_start_word);
-
-        // Nothing else to do with this segment if the rest is cleared entirely.
-        if (segment_start_word >= segment_end_word || range_last_word >= segment_end_word)
-          continue;
-      }
-
-      // Handle the intersection with the end of the range to clear (if any), if it's not at the segment boundary.
-      segment_start_word = word_index_of(align_bit_down_to_segment(range_end_bit));
-      if (segment_start_word >= segment_end_word)
-        continue;
-
-      if (!is_bit_aligned_to_segment(range_end_bit) && range_start_word <= range_last_word) {
-        uint32_t dense_range_index = 0;
-        uint32_t dense_range_count = range_end_bit & kSegmentBitMask;
+      // Inserts a Dense segment having all bits set except [first_bit, last_bit], if any remains.
+      auto insert_cleared = [&](uint32_t first_bit, uint32_t last_bit) noexcept {
+        uint32_t count = last_bit - first_bit + 1u;
+        if (count == kSegmentBitCount)
+          return;
 
-        init_dense_segment_with_ones(inserter.current(), segment_start_word);
-        bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
+        init_dense_segment_with_ones(inserter.current(), word_index_of(align_bit_down_to_segment(first_bit)));
+        bl::BitSetOps::bit_array_clear(inserter.current().data(), first_bit & kSegmentBitMask, count);
         inserter.advance();
+      };
 
-        segment_start_word += kSegmentWordCount;
-        range_start_word = segment_start_word;
-        range_start_bit = bit_index_of(range_start_word);
-
-        // Nothing else to do with this segment if the rest is cleared entirely.
-        if (segment_start_word >= segment_end_word || range_last_word >= segment_end_word)
-          continue;
-      }
-
-      // Handle a possible trailing segment, which won't be cleared.
-      uint32_t trailing_word_count = segment_end_word - segment_start_word;
-      BL_ASSERT(trailing_word_count >= 1);
+      // Handle a possible leading slice, which won't be cleared.
+      insert_ones(segment_start_word, clear_start_segment_word);
 
-      if (trailing_word_count >= kSegmentWordCount * 2) {
-        // If the trailing range spans across two or more segments, insert a Range segment.
-        init_range_segment(inserter.current(), segment_start_word, segment_end_word);
-        inserter.advance();
+      // Handle partially cleared segments at the beginning and at the end of the range to clear.
+      if (clear_start_segment_word == clear_last_segment_word) {
+        insert_cleared(clear_start_bit, clear_last_bit);
       }
       else {
-        // If the trailing range covers only a single segment, insert a Dense segment.
-        init_dense_segment_with_ones(inserter.current(), segment_start_word);
-        inserter.advance();
+        insert_cleared(clear_start_bit, clear_start_bit | kSegmentBitMask);
+        insert_cleared(align_bit_down_to_segment(clear_last_bit), clear_last_bit);
       }
+
+      // Handle a possible trailing slice, which won't be cleared.
+      insert_ones(clear_last_segment_word + kSegmentWordCount, segment_end_word);
     }
     else {
-      uint32_t segment_start_bit = range_start_bit & kSegmentBitMask;
-      uint32_t segment_range = range_end_bit - range_start_bit;
-
-      if (range_last_word < segment.end_word()) {
-        // If this is the only segment to touch, and the BitSet is mutable, do it in place and return
-        if (can_modify && insert_index == segment_index && inserter.is_empty()) {
-          bl::BitSetOps::bit_array_clear(segment_data[segment_index].data(), segment_start_bit, segment_range);
-          return reset_cached_cardinality(self);
-        }
-      }
-      else {
-        segment_range = kSegmentBitCount - segment_start_bit;
+      uint32_t segment_start_bit = clear_start_bit & kSegmentBitMask;
+      uint32_t segment_range = clear_last_bit - clear_start_bit + 1u;
+
+      // If this is the only segment to touch, and the BitSet is mutable, do it in place and return.
+      if (can_modify && range_last_word < segment_end_word && insert_index == segment_index && inserter.is_empty()) {
+        bl::BitSetOps::bit_array_clear(segment_data[segment_index].data(), segment_start_bit, segment_range);
+        return reset_cached_cardinality(self);
       }
 
       inserter.current() = segment;
-- 
2.43.0


From e62684d699689a6c52d8a21af7606438c1149b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 022/178] fix: BLBitSet add_words produced overlapping,
 unordered, and missing segments

---
 blend2d/core/bitset.cpp | 258 ++++++++--------------------------------
 1 file changed, 47 insertions(+), 211 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index f04b2d8..ba82a8d 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2817,39 +2817,6 @@ InitRange:
 // bl::BitSet - API - Data Manipulation - Add Words
 // ================================================
 
-namespace bl {
-namespace BitSetInternal {
-
-// Inserts temporary segments into segment_data.
-//
-// SegmentData must have at least `segment_count + inserted_count` capacity - because the merged segments are inserted
-// to `segment_data`. This function does merge from the end to ensure that we won't overwrite segments during merging.
-static BL_INLINE void merge_inserted_segments(BLBitSetSegment* segment_data, uint32_t segment_count, const BLBitSetSegment* inserted_data, uint32_t inserted_count) noexcept {
-  BLBitSetSegment* p = segment_data + segment_count + inserted_count;
-
-  const BLBitSetSegment* segment_end = segment_data + segment_count;
-  const BLBitSetSegment* inserted_end = inserted_data + inserted_count;
-
-  while (segment_data != segment_end && inserted_data != inserted_end) {
-    const BLBitSetSegment* src;
-    if (segment_end[-1].start_word() > inserted_end[-1].start_word())
-      src = --segment_end;
-    else
-      src = --inserted_end;
-    *--p = *src;
-  }
-
-  while (inserted_data != inserted_end) {
-    *--p = *--inserted_end;
-  }
-
-  // Make sure we ended at the correct index after merge.
-  BL_ASSERT(p == segment_end);
-}
-
-} // {BitSetInternal}
-} // {bl}
-
 BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_word, const uint32_t* word_data, uint32_t word_count) noexcept {
   using namespace bl::BitSetInternal;
   BL_ASSERT(self->_d.is_bit_set());
@@ -2861,7 +2828,7 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
   BLBitSetSegment sso_segment_data[3];
   BLBitSetSegment* segment_data = nullptr;
   uint32_t segment_count = 0;
-  uint32_t segment_capacity = 0;
+  bool can_modify = false;
 
   bl::ScopedBufferTmp<sizeof(BLBitSetSegment) * kTmpSegmentDataSize> tmp_segment_buffer;
   DynamicSegmentInserter inserter;
@@ -2880,12 +2847,12 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
 
       if (start_word < sso_word_index) {
         uint32_t distance = sso_word_index - start_word;
-        if (distance + sso_word_count <= kSSOWordCount) {
+        if (distance + sso_word_count <= kSSOWordCount && word_count <= kSSOWordCount) {
           BLBitSetCore tmp;
           init_sso_dense(&tmp, start_word);
 
           bl::MemOps::copy_forward_inline_t(tmp._d.u32_data, word_data, word_count);
-          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data, self->_d.u32_data + distance, sso_word_count);
+          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data + distance, self->_d.u32_data, sso_word_count);
 
           self->_d = tmp._d;
           return BL_SUCCESS;
@@ -2912,215 +2879,84 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
     if (!segment_count)
       return bl_bit_set_assign_words(self, start_word, word_data, word_count);
 
-    if (is_impl_mutable(self_impl))
-      segment_capacity = self_impl->segment_capacity;
+    can_modify = is_impl_mutable(self_impl);
   }
 
   // Dynamic BitSet (or SSO BitSet As Segments)
   // ------------------------------------------
 
-  uint32_t start_word_aligned_to_segment = align_word_down_to_segment(start_word);
-  uint32_t end_word_aligned_to_segment = align_word_up_to_segment(start_word + word_count);
-
-  // Find the first segment we have to modify.
-  BL_ASSERT(segment_count > 0);
-  uint32_t segment_index = segment_count;
-
-  if (segment_data[segment_count - 1].end_word() > start_word_aligned_to_segment)
-    segment_index = uint32_t(bl::lower_bound(segment_data, segment_count, SegmentWordIndex{start_word_aligned_to_segment}));
-
   uint32_t word_index_end = start_word + word_count;
-  uint32_t insert_segment_count = (end_word_aligned_to_segment - start_word_aligned_to_segment) / kSegmentWordCount;
-
-  // We need a temporary storage for segments to be inserted in case that any of the existing segment overlaps with
-  // word_data. In that case `tmp_segment_buffer` will be used to store such segments, and these segments will be merged
-  // with BitSet at the end of the function.
-  bool requires_temporary_storage = (segment_index != segment_count && insert_segment_count > 0);
+  uint32_t start_word_aligned_to_segment = align_word_down_to_segment(start_word);
+  uint32_t end_word_aligned_to_segment = align_word_up_to_segment(word_index_end);
 
-  if (requires_temporary_storage) {
-    BLBitSetSegment* p = static_cast<BLBitSetSegment*>(tmp_segment_buffer.alloc(insert_segment_count * sizeof(BLBitSetSegment)));
-    if (BL_UNLIKELY(!p))
-      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
-    inserter.reset(p, insert_segment_count);
-  }
+  // Find all segments that overlap the given words.
+  uint32_t segment_index = uint32_t(bl::lower_bound(segment_data, segment_count, SegmentWordIndex{start_word_aligned_to_segment}));
+  uint32_t segment_end = segment_index;
 
-  if (segment_count + insert_segment_count > segment_capacity) {
-    // If there is not enough capacity or the BitSet is not mutable, do a more precise analysis.
-    WordDataAnalysis analysis = analyze_word_data_for_combining(start_word, word_data, word_count, segment_data + segment_index, segment_count - segment_index);
-    insert_segment_count = analysis.segment_count;
+  while (segment_end < segment_count && segment_data[segment_end].start_word() < word_index_end)
+    segment_end++;
 
-    if (segment_count + insert_segment_count > segment_capacity) {
-      // Allocate a new Impl.
-      BLBitSetCore tmp;
-      BLObjectImplSize impl_size = expand_impl_size(impl_size_from_capacity(segment_count + insert_segment_count));
-      BL_PROPAGATE(init_dynamic(&tmp, impl_size));
+  // Include adjacent Range segments as it could be possible to merge them with the inserted ones.
+  if (segment_index > 0 && segment_data[segment_index - 1].all_ones() && segment_data[segment_index - 1].end_word() == start_word_aligned_to_segment)
+    segment_index--;
 
-      BLBitSetImpl* new_impl = get_impl(&tmp);
-      memcpy(new_impl->segment_data(), segment_data, segment_count * sizeof(BLBitSetSegment));
-      segment_data = new_impl->segment_data();
-      segment_capacity = get_impl(&tmp)->segment_capacity;
+  if (segment_end < segment_count && segment_data[segment_end].all_ones() && segment_data[segment_end].start_word() == end_word_aligned_to_segment)
+    segment_end++;
 
-      replace_instance(self, &tmp);
-    }
-  }
+  // Build an array of segments that will replace the overlapping segments.
+  uint32_t insert_segment_count = (end_word_aligned_to_segment - start_word_aligned_to_segment) / kSegmentWordCount;
+  uint32_t max_segment_count = insert_segment_count + (segment_end - segment_index);
 
-  if (!requires_temporary_storage)
-    inserter.reset(segment_data + segment_count, segment_capacity - segment_count);
+  BLBitSetSegment* p = static_cast<BLBitSetSegment*>(tmp_segment_buffer.alloc(max_segment_count * sizeof(BLBitSetSegment)));
+  if (BL_UNLIKELY(!p))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+  inserter.reset(p, max_segment_count);
 
-  // Leading segment requires special handling if it doesn't start at a segment boundary.
   uint32_t word_index = start_word_aligned_to_segment;
-  if (word_index != start_word) {
-    uint32_t segment_word_offset = start_word - word_index;
-    uint32_t segment_word_count = bl_min<uint32_t>(word_count, kSegmentWordCount - segment_word_offset);
+  uint32_t replaced_index = segment_index;
 
-    if (segment_index != segment_count && has_segment_word_index(segment_data[segment_index], word_index)) {
-      if (!segment_data[segment_index].all_ones())
-        bl::MemOps::combine_small<bl::BitOperator::Or>(segment_data[segment_index].data() + segment_word_offset, word_data, segment_word_count);
+  while (replaced_index < segment_end || word_index < word_index_end) {
+    bool has_words = word_index < word_index_end;
 
-      if (segment_data[segment_index].end_word() == word_index + kSegmentWordCount)
-        segment_index++;
+    if (replaced_index < segment_end && (!has_words || segment_data[replaced_index].start_word() <= word_index)) {
+      inserter.current() = segment_data[replaced_index++];
+      has_words = has_words && !inserter.current().all_ones();
     }
     else {
       init_dense_segment(inserter.current(), word_index);
-      bl::MemOps::copy_forward_inline_t(inserter.current().data() + segment_word_offset, word_data, segment_word_count);
-      inserter.advance();
     }
 
-    word_data += segment_word_count;
-    word_count -= segment_word_count;
-    word_index += kSegmentWordCount;
-  }
+    BLBitSetSegment& current = inserter.current();
+    word_index = bl_max(word_index, current.end_word());
 
-  // Main loop - word_index is aligned to a segment boundary, so process a single segment at a time.
-  uint32_t word_index_aligned_end = word_index + bl::IntOps::align_down<uint32_t>(word_count, kSegmentWordCount);
-  while (word_index != word_index_aligned_end) {
-    // Combine with an existing segment, if there is an intersection.
-    if (segment_index != segment_count) {
-      BLBitSetSegment& current = segment_data[segment_index];
-      if (has_segment_word_index(current, word_index)) {
-        if (current.all_ones()) {
-          // Terminate if the current Range segment completely subsumes the remaining words.
-          if (current._range_end_word() >= word_index_end)
-            break;
+    // Combine a Dense segment with the words that it overlaps.
+    if (has_words) {
+      uint32_t first = bl_max(current.start_word(), start_word);
+      uint32_t end = bl_min(current.end_word(), word_index_end);
 
-          uint32_t skip_count = current._range_end_word() - word_index;
-          word_data += skip_count;
-          word_index += skip_count;
-        }
-        else {
-          bl::MemOps::combine_small<bl::BitOperator::Or>(current.data(), word_data, kSegmentWordCount);
-          word_data += kSegmentWordCount;
-          word_index += kSegmentWordCount;
-        }
+      for (uint32_t i = first; i < end; i++)
+        current.data()[i - current.start_word()] |= word_data[i - start_word];
 
-        segment_index++;
+      // Don't insert zero segments - builders can use more words than a single segment occupies.
+      if (is_segment_data_zero(current.data()))
         continue;
-      }
     }
 
-    // The data doesn't overlap with an existing segment.
-    QuickDataAnalysis qa = quick_data_analysis(word_data);
-    uint32_t initial_word_index = word_index;
-
-    // Advance here so we don't have to do it.
-    word_data += kSegmentWordCount;
-    word_index += kSegmentWordCount;
-
-    // Handle a zero segment - this is a good case as BitSet builders can use more words than a
-    // single segment occupies. So if the whole segment is zero, don't create it to save space.
-    if (qa.is_zero())
-      continue;
-
-    // Handle a full segment - either merge with the previous range segment or try to find more
-    // full segments and create a new one if merging is not possible.
-    if (qa.is_full()) {
-      uint32_t range_end_word = word_index_aligned_end;
-
-      // Merge with the previous segment, if possible.
-      if (segment_index > 0) {
-        BLBitSetSegment& prev = segment_data[segment_index - 1];
-        if (prev.all_ones() && prev._range_end_word() == initial_word_index) {
-          prev._set_range_end_word(word_index);
-          continue;
-        }
-      }
-
-      // Merge with the next segment, if possible.
-      BLBitSetSegment* next = nullptr;
-      if (segment_index < segment_count) {
-        next = &segment_data[segment_index];
-        range_end_word = bl_min<uint32_t>(range_end_word, next->end_word());
-
-        if (next->start_word() == word_index) {
-          if (next->all_ones()) {
-            next->_set_range_start_word(initial_word_index);
-            continue;
-          }
-        }
-      }
-
-      // Analyze how many full segments are next to each other.
-      while (word_index != range_end_word) {
-        if (!is_segment_data_filled(word_data))
-          break;
-
-        word_data += kSegmentWordCount;
-        word_index += kSegmentWordCount;
-      }
-
-      // Create a Range segment if two or more full segments are next to each other.
-      if (initial_word_index - word_index > kSegmentWordCount) {
-        if (next) {
-          if (next->all_ones() && word_index >= next->start_word()) {
-            next->_set_range_start_word(initial_word_index);
-            continue;
-          }
-
-          if (word_index > next->start_word()) {
-            init_range_segment(*next, initial_word_index, word_index);
-            segment_index++;
-            continue;
-          }
-        }
-
-        // Insert a new Range segment.
-        init_range_segment(inserter.current(), initial_word_index, word_index);
-        inserter.advance();
+    // Join consecutive segments that have all bits set.
+    if (!inserter.is_empty()) {
+      BLBitSetSegment& prev = inserter.prev();
+      if (prev.end_word() == current.start_word() &&
+          (current.all_ones() || is_segment_data_filled(current.data())) &&
+          (prev.all_ones() || is_segment_data_filled(prev.data()))) {
+        init_range_segment(prev, prev.start_word(), current.end_word());
         continue;
       }
     }
 
-    // Insert a new Dense segment.
-    init_dense_segment_with_data(inserter.current(), word_index - kSegmentWordCount, word_data - kSegmentWordCount);
     inserter.advance();
   }
 
-  // Tail segment requires special handling if it doesn't end on a segment boundary.
-  //
-  // NOTE: We don't have to analyze the data as we already know it's not a full segment and that it's not empty.
-  if (word_index < word_index_end) {
-    if (segment_index != segment_count && has_segment_word_index(segment_data[segment_index], word_index)) {
-      // Combine with an existing segment, if data and segment overlaps.
-      BLBitSetSegment& current = segment_data[segment_index];
-      if (!current.all_ones())
-        bl::MemOps::combine_small<bl::BitOperator::Or>(current.data(), word_data, word_index_end - word_index_aligned_end);
-      segment_index++;
-    }
-    else {
-      // Insert a new Dense segment if data doesn't overlap with an existing segment.
-      init_dense_segment(inserter.current(), word_index);
-      bl::MemOps::copy_forward_inline_t(inserter.current().data(), word_data, word_index_end - word_index_aligned_end);
-      inserter.advance();
-    }
-  }
-
-  // Merge temporarily created segments to BitSet, if any.
-  if (!inserter.is_empty() && requires_temporary_storage)
-    merge_inserted_segments(segment_data, segment_count, inserter.segments(), inserter.index());
-
-  get_impl(self)->segment_count = segment_count + inserter.index();
-  reset_cached_cardinality(self);
-  return BL_SUCCESS;
+  return splice_internal(self, segment_data, segment_count, segment_index, segment_end - segment_index, inserter.segments(), inserter.index(), can_modify);
 }
 
 // bl::BitSet - API - Data Manipulation - Clear Bit
-- 
2.43.0


From 2aa93a0fa88b0aeb4ff9f06208242acbdbbf8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 023/178] fix: inline BLBitSet data spanning two segments were
 converted to a single segment

---
 blend2d/core/bitset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index ba82a8d..afbb0bc 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -905,6 +905,8 @@ static BL_NOINLINE uint32_t init_segments_from_dense_data(BLBitSetSegment* dst,
     do {
       dst->_data[i] = *words++;
     } while(++i != n);
+
+    dst++;
   }
 
   return last_segment_id - first_segment_id + 1u;
-- 
2.43.0


From 6e7b804d53d9f6f0b72dc5c86e0ff509d53bde1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 024/178] fix: BLBitSet assign_words overflowed when all words
 were in a single unaligned segment

---
 blend2d/core/bitset.cpp | 85 +----------------------------------------
 1 file changed, 1 insertion(+), 84 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index afbb0bc..aa84fca 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -989,89 +989,6 @@ static WordDataAnalysis analyze_word_data_for_assignment(uint32_t start_word, co
   return WordDataAnalysis { insert_count, zero_count };
 }
 
-// Returns the exact number of segments that is necessary to insert the given word_data into an existing
-// BitSet. The real addition can produce less segments in certain scenarios, but never more segments...
-//
-// NOTE: The given segment_data must be adjusted to start_word - the caller must find which segment will
-// be the first overlapping segment (or the next overlapping segment) by using `bl::lower_bound()`.
-static WordDataAnalysis analyze_word_data_for_combining(uint32_t start_word, const uint32_t* word_data, uint32_t word_count, const BLBitSetSegment* segment_data, uint32_t segment_count) noexcept {
-  // Should only be called when there are actually words to assign.
-  BL_ASSERT(word_count > 0);
-
-  // It's required to remove empty words before running the analysis.
-  BL_ASSERT(word_data[0] != 0);
-  BL_ASSERT(word_data[word_count -1] != 0);
-
-  uint32_t word_index = start_word;
-  uint32_t zero_count = 0;
-  uint32_t insert_count = 0;
-
-  // Let's only use `segment_data` and `segment_end` to avoid indexing into `segment_data`.
-  const BLBitSetSegment* segment_end = segment_data + segment_count;
-
-  // Process data that form a leading segment (only required if the data doesn't start on a segment boundary).
-  uint32_t leading_alignment_offset = word_index - align_word_down_to_segment(word_index);
-  if (leading_alignment_offset) {
-    insert_count += uint32_t(!(segment_data != segment_end && has_segment_word_index(*segment_data, word_index)));
-
-    uint32_t leading_alignment_words_used = kSegmentWordCount - leading_alignment_offset;
-    if (leading_alignment_words_used >= word_count)
-      return { insert_count, zero_count };
-
-    word_data += leading_alignment_words_used;
-    word_index += leading_alignment_words_used;
-    word_count -= leading_alignment_words_used;
-
-    if (segment_data != segment_end && segment_data->end_word() == word_index)
-      segment_data++;
-  }
-
-  uint32_t trailing_word_count = word_count & (kSegmentWordCount - 1);
-  const uint32_t* word_end = word_data + (word_count - trailing_word_count);
-
-  // Process words that form whole segments.
-  while (word_data != word_end) {
-    if (segment_data != segment_end && has_segment_word_index(*segment_data, word_index)) {
-      word_data += kSegmentWordCount;
-      word_index += kSegmentWordCount;
-
-      if (segment_data->end_word() == word_index)
-        segment_data++;
-    }
-    else {
-      QuickDataAnalysis qa = quick_data_analysis(word_data);
-
-      word_data += kSegmentWordCount;
-      word_index += kSegmentWordCount;
-
-      if (qa.is_zero()) {
-        zero_count++;
-        continue;
-      }
-
-      insert_count++;
-
-      if (qa.is_full()) {
-        uint32_t word_check = 0xFFFFFFFFu;
-        if (segment_data != segment_end)
-          word_check = segment_data->start_word();
-
-        while (word_index < word_check && word_data != word_end && is_segment_data_filled(word_data)) {
-          word_data += kSegmentWordCount;
-          word_index += kSegmentWordCount;
-        }
-      }
-    }
-  }
-
-  // Process data that form a trailing segment (only required if the data doesn't end on a segment boundary).
-  if (trailing_word_count) {
-    insert_count += uint32_t(!(segment_data != segment_end && has_segment_word_index(*segment_data, word_index)));
-  }
-
-  return WordDataAnalysis { insert_count, zero_count };
-}
-
 static bool get_range_from_analyzed_word_data(uint32_t start_word, const uint32_t* word_data, uint32_t word_count, Range* range_out) noexcept {
   // Should only be called when there are actually words to assign.
   BL_ASSERT(word_count > 0);
@@ -1442,7 +1359,7 @@ BL_API_IMPL BLResult bl_bit_set_assign_words(BLBitSetCore* self, uint32_t start_
     }
 
     // Trailing segment requires special handling, if it doesn't end on a segment boundary.
-    if (word_index != word_index_end) {
+    if (word_index < word_index_end) {
       init_dense_segment(*dst_segment, word_index);
       bl::MemOps::copy_forward_inline_t(dst_segment->data(), word_data, (size_t)(word_index_end - word_index));
 
-- 
2.43.0


From 0eb3ab800e87fd4fda16d662d966100deac19885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 025/178] fix: BLBitSet assign_words turned words that are not
 consecutive into a range

---
 blend2d/core/bitset.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index aa84fca..742a7fa 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1018,17 +1018,8 @@ static bool get_range_from_analyzed_word_data(uint32_t start_word, const uint32_
     return false;
   }
 
-  // Now verify that all other words that form first, middle, and last segment are all ones.
-  //
-  // NOTE: This function is only called after `analyze_word_data_for_assignment()`, which means that we know that there
-  // are no zero segments and we know that the maximum number of segments all words form are 3. This means that we
-  // don't have to process all words, only those that describe the first two segments and the last one (because there
-  // are no other segments). If the range is really large, we can skip a lot of words.
-  uint32_t first_words_to_check = bl_min<uint32_t>(word_count - 2, kSegmentWordCount * 2 - 1);
-  uint32_t last_words_to_check = bl_min<uint32_t>(word_count - 2, kSegmentWordCount - 1);
-
-  return MemOps::test_small_t(word_data + 1, first_words_to_check, BitSetOps::ones()) &&
-         MemOps::test_small_t(word_data + word_count - 1 - last_words_to_check, last_words_to_check, BitSetOps::ones());
+  // Now verify that all words between the first and the last one are all ones.
+  return MemOps::test_small_t(word_data + 1, word_count - 2u, BitSetOps::ones());
 }
 
 // bl::BitSet - Dynamic - Splice Operation
-- 
2.43.0


From 5722d4450428520701074d438094c285470c88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 026/178] fix: clearing a range at the end of BLBitSet used
 words past the last addressable one

---
 blend2d/core/bitset.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 742a7fa..85bae2d 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2911,12 +2911,13 @@ BL_API_IMPL BLResult bl_bit_set_clear_bit(BLBitSetCore* self, uint32_t bit_index
 
       // We know that the bit_index is somewhere inside the SSO range, but not at the start/end. If the range can
       // be represented as a dense SSO BitSet then it's guaranteed that the result would also fit in SSO storage.
-      uint32_t first_word = word_index_of(rSSO.start);
+      // NOTE: We don't want the SSO data to overflow the addressable words.
+      uint32_t first_word = bl_min<uint32_t>(word_index_of(rSSO.start), kSSOLastWord);
       uint32_t last_word = word_index_of(rSSO.end - 1u);
 
       if (last_word - first_word < kSSOWordCount) {
         init_sso_dense(self, first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear_bit(self->_d.u32_data, bit_index - bit_index_of(first_word));
         return BL_SUCCESS;
       }
@@ -3070,12 +3071,13 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
 
       // We know that the range is somewhere inside the SSO range, but not at the start/end. If the range can be
       // represented as a dense SSO BitSet then it's guaranteed that the result would also fit in SSO storage.
-      uint32_t dense_first_word = word_index_of(rSSO.start);
+      // NOTE: We don't want the SSO data to overflow the addressable words.
+      uint32_t dense_first_word = bl_min<uint32_t>(word_index_of(rSSO.start), kSSOLastWord);
       uint32_t dense_last_word = word_index_of(rSSO.end - 1u);
 
       if (dense_last_word - dense_first_word < kSSOWordCount) {
         init_sso_dense(self, dense_first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(dense_first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear(self->_d.u32_data, intersection.start - bit_index_of(dense_first_word), intersection.size());
         return BL_SUCCESS;
       }
-- 
2.43.0


From 2da4f2a5f5aaddc41a619708e23c20ff14587eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 027/178] fix: renderer ignored weights of conic curves and
 rendered them as quads

---
 blend2d/raster/edgebuilder_p.h | 319 ++++++++-------------------------
 1 file changed, 78 insertions(+), 241 deletions(-)

diff --git a/blend2d/raster/edgebuilder_p.h b/blend2d/raster/edgebuilder_p.h
index 36f359f..7d8cb6d 100644
--- a/blend2d/raster/edgebuilder_p.h
+++ b/blend2d/raster/edgebuilder_p.h
@@ -157,8 +157,8 @@ public:
   BL_INLINE void next_cubic_to(BLPoint&, BLPoint&, BLPoint&) noexcept {}
   BL_INLINE bool maybe_next_cubic_to(BLPoint&, BLPoint&, BLPoint&) noexcept { return false; }
 
-  BL_INLINE void next_conic_to(BLPoint&, BLPoint&) noexcept {}
-  BL_INLINE bool maybe_next_conic_to(BLPoint&, BLPoint&) noexcept { return false; }
+  BL_INLINE void next_conic_to(BLPoint&, BLPoint&, double&) noexcept {}
+  BL_INLINE bool maybe_next_conic_to(BLPoint&, BLPoint&, double&) noexcept { return false; }
 };
 
 template<class Transform = EdgeTransformNone>
@@ -264,18 +264,19 @@ public:
     return true;
   }
 
-  BL_INLINE void next_conic_to(BLPoint& pt1, BLPoint& pt2) noexcept {
+  BL_INLINE void next_conic_to(BLPoint& pt1, BLPoint& pt2, double& weight) noexcept {
     _transform.apply(pt1, _vtx_ptr[0]);
+    weight = _vtx_ptr[1].x;
     _transform.apply(pt2, _vtx_ptr[2]);
-    _cmd_ptr += 2;
-    _vtx_ptr += 2;
+    _cmd_ptr += 3;
+    _vtx_ptr += 3;
   }
 
-  BL_INLINE bool maybe_next_conic_to(BLPoint& pt1, BLPoint& pt2) noexcept {
+  BL_INLINE bool maybe_next_conic_to(BLPoint& pt1, BLPoint& pt2, double& weight) noexcept {
     if (!is_conic_to())
       return false;
 
-    next_conic_to(pt1, pt2);
+    next_conic_to(pt1, pt2, weight);
     return true;
   }
 };
@@ -342,7 +343,7 @@ public:
   BL_INLINE bool is_line_to() const noexcept { return _cmd_ptr != _cmd_start && _cmd_ptr[-1] <= BL_PATH_CMD_ON; }
   BL_INLINE bool is_quad_to() const noexcept { return _cmd_ptr != _cmd_start && _cmd_ptr[-1] == BL_PATH_CMD_QUAD; }
   BL_INLINE bool is_cubic_to() const noexcept { return _cmd_ptr != _cmd_start && _cmd_ptr[-1] == BL_PATH_CMD_CUBIC; }
-  BL_INLINE bool is_conic_to() const noexcept { return _cmd_ptr != _cmd_start && _cmd_ptr[-1] == BL_PATH_CMD_CONIC; }
+  BL_INLINE bool is_conic_to() const noexcept { return _cmd_ptr != _cmd_start && _cmd_ptr[-1] == BL_PATH_CMD_WEIGHT; }
 
   BL_INLINE void next_line_to(BLPoint& pt1) noexcept {
     _cmd_ptr--;
@@ -389,18 +390,72 @@ public:
     return true;
   }
 
-  BL_INLINE void next_conic_to(BLPoint& pt1, BLPoint& pt2) noexcept {
-    _cmd_ptr -= 2;
-    _vtx_ptr -= 2;
-    _transform.apply(pt1, _vtx_ptr[2]);
+  BL_INLINE void next_conic_to(BLPoint& pt1, BLPoint& pt2, double& weight) noexcept {
+    _cmd_ptr -= 3;
+    _vtx_ptr -= 3;
+    _transform.apply(pt1, _vtx_ptr[1]);
+    weight = _vtx_ptr[2].x;
     _transform.apply(pt2, _vtx_ptr[0]);
   }
 
-  BL_INLINE bool maybe_next_conic_to(BLPoint& pt1, BLPoint& pt2) noexcept {
+  BL_INLINE bool maybe_next_conic_to(BLPoint& pt1, BLPoint& pt2, double& weight) noexcept {
     if (!is_conic_to())
       return false;
 
-    next_conic_to(pt1, pt2);
+    next_conic_to(pt1, pt2, weight);
+    return true;
+  }
+};
+
+//! Provides quadratic curves that approximate a single conic curve.
+class EdgeSourceConicQuads {
+public:
+  static constexpr uint32_t kMaxLevel = 6;
+
+  BLPoint _vtx_data[2u << kMaxLevel];
+  const BLPoint* _vtx_ptr;
+  const BLPoint* _vtx_end;
+
+  BL_INLINE EdgeSourceConicQuads(const BLPoint& p0, const BLPoint& p1, const BLPoint& p2, double weight, double tolerance_sq) noexcept {
+    _vtx_ptr = _vtx_data;
+    _vtx_end = convert(_vtx_data, p0, p1, p2, bl_clamp(weight, 0.0, 1e9), tolerance_sq, kMaxLevel);
+  }
+
+  static BLPoint* convert(BLPoint* out, const BLPoint& p0, const BLPoint& p1, const BLPoint& p2, double w, double tolerance_sq, uint32_t level) noexcept {
+    // Squared distance between the conic and a quad that has the same control points.
+    double k = (w - 1.0) / (4.0 * (w + 1.0));
+    double err_sq = Math::square(k) * (Math::square(p0.x - 2.0 * p1.x + p2.x) + Math::square(p0.y - 2.0 * p1.y + p2.y));
+
+    if (level == 0u || !(err_sq > tolerance_sq)) {
+      out[0] = p1;
+      out[1] = p2;
+      return out + 2;
+    }
+
+    double scale = 1.0 / (1.0 + w);
+    double sub_w = Math::sqrt(0.5 + w * 0.5);
+
+    BLPoint a = (p0 + p1 * w) * scale;
+    BLPoint b = (p1 * w + p2) * scale;
+    BLPoint m = (a + b) * 0.5;
+
+    out = convert(out, p0, a, m, sub_w, tolerance_sq, level - 1u);
+    return convert(out, m, b, p2, sub_w, tolerance_sq, level - 1u);
+  }
+
+  BL_INLINE bool is_quad_to() const noexcept { return _vtx_ptr != _vtx_end; }
+
+  BL_INLINE void next_quad_to(BLPoint& pt1, BLPoint& pt2) noexcept {
+    pt1 = _vtx_ptr[0];
+    pt2 = _vtx_ptr[1];
+    _vtx_ptr += 2;
+  }
+
+  BL_INLINE bool maybe_next_quad_to(BLPoint& pt1, BLPoint& pt2) noexcept {
+    if (!is_quad_to())
+      return false;
+
+    next_quad_to(pt1, pt2);
     return true;
   }
 };
@@ -662,112 +717,6 @@ public:
   }
 };
 
-//! Helper to flatten a monotonic quad curve.
-class FlattenMonoConic {
-public:
-  FlattenMonoData& _flatten_data;
-  double _tolerance_sq;
-  BLPoint* _stack_ptr;
-  BLPoint _p0, _p1, _p2;
-
-  struct SplitStep {
-    BL_INLINE bool is_finite() const noexcept { return Math::is_finite(value); }
-    BL_INLINE const BLPoint& mid_point() const noexcept { return p012; }
-
-    double value;
-    double limit;
-
-    BLPoint p01;
-    BLPoint p12;
-    BLPoint p012;
-  };
-
-  BL_INLINE explicit FlattenMonoConic(FlattenMonoData& flatten_data, double tolerance_sq) noexcept
-    : _flatten_data(flatten_data),
-      _tolerance_sq(tolerance_sq) {}
-
-  BL_INLINE void begin(const BLPoint* src, uint32_t sign_bit) noexcept {
-    _stack_ptr = _flatten_data._stack;
-
-    if (sign_bit == 0) {
-      _p0 = src[0];
-      _p1 = src[1];
-      _p2 = src[2];
-    }
-    else {
-      _p0 = src[2];
-      _p1 = src[1];
-      _p2 = src[0];
-    }
-  }
-
-  BL_INLINE const BLPoint& first() const noexcept { return _p0; }
-  BL_INLINE const BLPoint& last() const noexcept { return _p2; }
-
-  BL_INLINE bool can_pop() const noexcept { return _stack_ptr != _flatten_data._stack; }
-  BL_INLINE bool can_push() const noexcept { return _stack_ptr != _flatten_data._stack + FlattenMonoData::kStackSizeQuad; }
-
-  BL_INLINE bool is_left_to_right() const noexcept { return first().x < last().x; }
-
-  // Caused by floating point inaccuracy, we must bound the control
-  // point as we really need monotonic curve that would never outbound
-  // the boundary defined by its start/end points.
-  BL_INLINE void bound_left_to_right() noexcept {
-    _p1.x = bl_clamp(_p1.x, _p0.x, _p2.x);
-    _p1.y = bl_clamp(_p1.y, _p0.y, _p2.y);
-  }
-
-  BL_INLINE void bound_right_to_left() noexcept {
-    _p1.x = bl_clamp(_p1.x, _p2.x, _p0.x);
-    _p1.y = bl_clamp(_p1.y, _p0.y, _p2.y);
-  }
-
-  BL_INLINE bool is_flat(SplitStep& step) const noexcept {
-    BLPoint v1 = _p1 - _p0;
-    BLPoint v2 = _p2 - _p0;
-
-    double d = Geometry::cross(v2, v1);
-    double len_sq = Geometry::magnitude_squared(v2);
-
-    step.value = d * d;
-    step.limit = _tolerance_sq * len_sq;
-
-    return step.value <= step.limit;
-  }
-
-  BL_INLINE void split(SplitStep& step) const noexcept {
-    step.p01 = (_p0 + _p1) * 0.5;
-    step.p12 = (_p1 + _p2) * 0.5;
-    step.p012 = (step.p01 + step.p12) * 0.5;
-  }
-
-  BL_INLINE void push(const SplitStep& step) noexcept {
-    // Must be checked before calling `push()`.
-    BL_ASSERT(can_push());
-
-    _stack_ptr[0].reset(step.p012);
-    _stack_ptr[1].reset(step.p12);
-    _stack_ptr[2].reset(_p2);
-    _stack_ptr += 3;
-
-    _p1 = step.p01;
-    _p2 = step.p012;
-  }
-
-  BL_INLINE void discard_and_advance(const SplitStep& step) noexcept {
-    _p0 = step.p012;
-    _p1 = step.p12;
-  }
-
-  BL_INLINE void pop() noexcept {
-    _stack_ptr -= 3;
-    _p0 = _stack_ptr[0];
-    _p1 = _stack_ptr[1];
-    _p2 = _stack_ptr[2];
-  }
-};
-
-
 //! \}
 
 //! \name Edge Builder
@@ -1896,129 +1845,17 @@ RestartClipLoop:
 
   template<class Source>
   BL_INLINE_IF_NOT_DEBUG BLResult conic_to(Source& source, State& state) noexcept {
-    // 2 extremas and 1 terminating `1.0` value.
-    constexpr uint32_t kMaxTCount = 2 + 1;
-
-    BLPoint spline[kMaxTCount * 2 + 1];
-    BLPoint& p0 = state.a;
-    BLPoint& p1 = spline[1];
-    BLPoint& p2 = spline[2];
-
-    uint32_t& p0_flags = state.a_flags;
-    source.next_conic_to(p1, p2);
-
-    for (;;) {
-      uint32_t p1_flags = bl_clip_calc_xy_flags(p1, _clip_box_d);
-      uint32_t p2_flags = bl_clip_calc_xy_flags(p2, _clip_box_d);
-      uint32_t common_flags = p0_flags & p1_flags & p2_flags;
-
-      // Fast reject.
-      if (common_flags) {
-        uint32_t end = 0;
-
-        if (common_flags & kClipFlagY0) {
-          // CLIPPED OUT: Above top (fast).
-          for (;;) {
-            p0 = p2;
-            end = !source.is_conic_to();
-            if (end) break;
-
-            source.next_conic_to(p1, p2);
-            if (!((p1.y <= _clip_box_d.y0) & (p2.y <= _clip_box_d.y0)))
-              break;
-          }
-        }
-        else if (common_flags & kClipFlagY1) {
-          // CLIPPED OUT: Below bottom (fast).
-          for (;;) {
-            p0 = p2;
-            end = !source.is_conic_to();
-            if (end) break;
-
-            source.next_conic_to(p1, p2);
-            if (!((p1.y >= _clip_box_d.y1) & (p2.y >= _clip_box_d.y1)))
-              break;
-          }
-        }
-        else {
-          // CLIPPED OUT: Before left or after right (border-line required).
-          double y0 = bl_clamp(p0.y, _clip_box_d.y0, _clip_box_d.y1);
-
-          if (common_flags & kClipFlagX0) {
-            for (;;) {
-              p0 = p2;
-              end = !source.is_conic_to();
-              if (end) break;
+    BLPoint p1;
+    BLPoint p2;
+    double weight;
 
-              source.next_conic_to(p1, p2);
-              if (!((p1.x <= _clip_box_d.x0) & (p2.x <= _clip_box_d.x0)))
-                break;
-            }
-
-            double y1 = bl_clamp(p0.y, _clip_box_d.y0, _clip_box_d.y1);
-            BL_PROPAGATE(accumulate_left_border(y0, y1));
-          }
-          else {
-            for (;;) {
-              p0 = p2;
-              end = !source.is_conic_to();
-              if (end) break;
-
-              source.next_conic_to(p1, p2);
-              if (!((p1.x >= _clip_box_d.x1) & (p2.x >= _clip_box_d.x1)))
-                break;
-            }
-
-            double y1 = bl_clamp(p0.y, _clip_box_d.y0, _clip_box_d.y1);
-            BL_PROPAGATE(accumulate_right_border(y0, y1));
-          }
-        }
-
-        p0_flags = bl_clip_calc_xy_flags(p0, _clip_box_d);
-        if (end)
-          return BL_SUCCESS;
-        continue;
-      }
-
-      spline[0] = p0;
-
-      BLPoint* spline_ptr = spline;
-      BLPoint* spline_end = Geometry::split_conic_to_spline<Geometry::QuadSplitOptions::kExtremaXY>(spline, spline_ptr);
-
-      if (spline_end == spline_ptr)
-        spline_end = spline_ptr + 2;
-
-      Appender appender(*this);
-      FlattenMonoConic mono_curve(state.flatten_data, _flatten_tolerance_sq);
-
-      uint32_t any_flags = p0_flags | p1_flags | p2_flags;
-      if (any_flags) {
-        // One or more quad may need clipping.
-        do {
-          uint32_t sign_bit = spline_ptr[0].y > spline_ptr[2].y;
-          BL_PROPAGATE(
-            flatten_unsafe_mono_curve<FlattenMonoConic>(mono_curve, appender, spline_ptr, sign_bit)
-          );
-        } while ((spline_ptr += 2) != spline_end);
-
-        p0 = spline_end[0];
-        p0_flags = p2_flags;
-      }
-      else {
-        // No clipping - optimized fast-path.
-        do {
-          uint32_t sign_bit = spline_ptr[0].y > spline_ptr[2].y;
-          BL_PROPAGATE(
-            flatten_safe_mono_curve<FlattenMonoConic>(mono_curve, appender, spline_ptr, sign_bit)
-          );
-        } while ((spline_ptr += 2) != spline_end);
-
-        p0 = spline_end[0];
-      }
+    source.next_conic_to(p1, p2, weight);
+    do {
+      EdgeSourceConicQuads quads(state.a, p1, p2, weight, _flatten_tolerance_sq);
+      BL_PROPAGATE(quad_to(quads, state));
+    } while (source.maybe_next_conic_to(p1, p2, weight));
 
-      if (!source.maybe_next_conic_to(p1, p2))
-        return BL_SUCCESS;
-    }
+    return BL_SUCCESS;
   }
 
   //! \}
-- 
2.43.0


From 13d40f6d14c6f48d815d748757d3c54b8dc55eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 028/178] fix: coverage was wrong when an edge left a cell at
 the very bottom of a scanline

---
 blend2d/raster/analyticrasterizer_p.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/analyticrasterizer_p.h b/blend2d/raster/analyticrasterizer_p.h
index c018079..54155c2 100644
--- a/blend2d/raster/analyticrasterizer_p.h
+++ b/blend2d/raster/analyticrasterizer_p.h
@@ -463,6 +463,13 @@ struct AnalyticRasterizer : public AnalyticState {
   //! \name Rasterize
   //! \{
 
+  //! Makes the position where the edge leaves the current cell horizontally relative to the current scanline.
+  //!
+  //! Such position is never the top of the scanline, but it can be rounded to its bottom, which must not wrap to zero.
+  static BL_INLINE int wrap_y_crossing(int y) noexcept {
+    return ((y - 1) & int(A8Info::kMask)) + 1;
+  }
+
   template<uint32_t OPTIONS>
   BL_INLINE bool rasterize() noexcept {
     BL_ASSERT(uint32_t(_ey0) >= _band_offset);
@@ -592,7 +599,7 @@ struct AnalyticRasterizer : public AnalyticState {
           if (_fx0 < 0) {
             _ex0--;
             _fx0 += A8Info::kScale;
-            _yDlt &= A8Info::kMask;
+            _yDlt = wrap_y_crossing(_yDlt);
 
             if (!area) {
               area = A8Info::kScale;
@@ -652,7 +659,7 @@ VertRightToLeftSingleFirstOrLast:
             if (_fx0 < 0) {
               _ex0--;
               _fx0 += A8Info::kScale;
-              _yDlt &= A8Info::kMask;
+              _yDlt = wrap_y_crossing(_yDlt);
 
               if (!area) {
                 area = A8Info::kScale;
@@ -755,7 +762,7 @@ VertRightToLeftSingleInLoop:
           else {
             _ex0++;
             _fx0 &= A8Info::kMask;
-            _yDlt &= A8Info::kMask;
+            _yDlt = wrap_y_crossing(_yDlt);
             bit_set<OPTIONS>(bit_ptr, unsigned(_ex0) / BL_PIPE_PIXELS_PER_ONE_BIT);
 
             cov0 = apply_sign_mask(uint32_t(_yDlt - _fy0));
@@ -814,7 +821,7 @@ VertRightToLeftSingleInLoop:
             }
             else {
               _fx0 &= A8Info::kMask;
-              _yDlt &= A8Info::kMask;
+              _yDlt = wrap_y_crossing(_yDlt);
 
               cov0 = apply_sign_mask(uint32_t(_yDlt));
               cov1 = cov0 * (area + A8Info::kScale);
-- 
2.43.0


From 9078598a4fbfd280e89be0c0fc03d1f75f1f9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 029/178] fix: transforming a path corrupted weights of conic
 curves

---
 blend2d/core/path.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index b7af701..1234d8b 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -860,6 +860,26 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
   }
 }
 
+// Maps all vertices except weights of conic curves, which are not coordinates.
+static BLResult map_vertices(const BLMatrix2D* transform, uint32_t transform_type, BLPoint* dst, const BLPoint* src, const uint8_t* cmd_data, size_t n) noexcept {
+  auto map_func = TransformInternal::map_pointd_array_funcs[transform_type];
+
+  while (const uint8_t* weight_ptr = n ? static_cast<const uint8_t*>(memchr(cmd_data, BL_PATH_CMD_WEIGHT, n)) : nullptr) {
+    size_t i = size_t(weight_ptr - cmd_data);
+    BL_PROPAGATE(map_func(transform, dst, src, i));
+
+    dst[i] = src[i];
+    i++;
+
+    dst += i;
+    src += i;
+    cmd_data += i;
+    n -= i;
+  }
+
+  return map_func(transform, dst, src, n);
+}
+
 static BLResult append_transformed_path_with_type(BLPathCore* self, const BLPathCore* other, const BLRange* range, const BLMatrix2D* transform, uint32_t transform_type) noexcept {
   BL_ASSERT(self->_d.is_path());
   BL_ASSERT(other->_d.is_path());
@@ -878,7 +898,7 @@ static BLResult append_transformed_path_with_type(BLPathCore* self, const BLPath
   other_impl = get_impl(other);
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, vtx_data, other_impl->vertex_data + start, cmd_data, n);
 }
 
 } // {PathInternal}
@@ -1842,7 +1862,7 @@ BL_API_IMPL BLResult bl_path_add_transformed_path(BLPathCore* self, const BLPath
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? transform->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   memcpy(cmd_data, other_impl->command_data + start, n);
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, other_impl->vertex_data + start, n);
+  return map_vertices(transform, transform_type, vtx_data, other_impl->vertex_data + start, cmd_data, n);
 }
 
 BL_API_IMPL BLResult bl_path_add_reversed_path(BLPathCore* self, const BLPathCore* other, const BLRange* range, BLPathReverseMode reverse_mode) noexcept {
@@ -2105,7 +2125,7 @@ static BLResult transform_with_type(BLPathCore* self, const BLRange* range, cons
   self_impl = get_impl(self);
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](transform, vtx_data, vtx_data, n);
+  return map_vertices(transform, transform_type, vtx_data, vtx_data, self_impl->command_data + start, n);
 }
 
 } // {PathInternal}
@@ -2136,7 +2156,7 @@ BL_API_IMPL BLResult bl_path_transform(BLPathCore* self, const BLRange* range, c
   BLTransformType transform_type = (n >= BL_MATRIX_TYPE_MINIMUM_SIZE) ? m->type() : BL_TRANSFORM_TYPE_AFFINE;
 
   BLPoint* vtx_data = self_impl->vertex_data + start;
-  return bl::TransformInternal::map_pointd_array_funcs[transform_type](m, vtx_data, vtx_data, n);
+  return map_vertices(m, transform_type, vtx_data, vtx_data, self_impl->command_data + start, n);
 }
 
 BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, const BLRect* rect, uint32_t fit_flags) noexcept {
-- 
2.43.0


From efcde6138b290367ac37c543ea4bbebbd150a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 030/178] fix: matrix having zero determinant was not reported
 as an invalid transformation

---
 blend2d/core/matrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/matrix.cpp b/blend2d/core/matrix.cpp
index fee6424..72503bc 100644
--- a/blend2d/core/matrix.cpp
+++ b/blend2d/core/matrix.cpp
@@ -175,6 +175,7 @@ BL_API_IMPL BLTransformType bl_matrix2d_get_type(const BLMatrix2D* self) noexcep
 
   double d = m00 * m11 - m01 * m10;
   if (!((1u << value_msk) & valid_tab) ||
+      d == 0.0 ||
       !bl::Math::is_finite(d) ||
       !bl::Math::is_finite(m20) ||
       !bl::Math::is_finite(m21)) {
-- 
2.43.0


From 56770de60e4fabbf9c790770eed3b649a4f15f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:20 +0000
Subject: [PATCH 031/178] fix: DST_IN of a transparent source had no effect on
 XRGB32 destination

---
 blend2d/core/compopsimplifyimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/compopsimplifyimpl_p.h b/blend2d/core/compopsimplifyimpl_p.h
index 9563f52..f204f37 100644
--- a/blend2d/core/compopsimplifyimpl_p.h
+++ b/blend2d/core/compopsimplifyimpl_p.h
@@ -239,7 +239,7 @@ struct CompOpSimplifyInfoImpl {
            d == Fmt::kPRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
            d == Fmt::kXRGB32 && s == Fmt::kPRGB32 ? dst_in(Fmt::kPRGB32, Fmt::kPRGB32) :
-           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? dst_in(Fmt::kPRGB32, Fmt::kFRGB32) :
+           d == Fmt::kXRGB32 && s == Fmt::kZERO32 ? src_copy(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kXRGB32 ? dst_copy(d, s) :
            d == Fmt::kXRGB32 && s == Fmt::kFRGB32 ? dst_copy(d, s) :
 
-- 
2.43.0


From bb0a46a90f896761cd3083ea3eeaae7097f6e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 032/178] fix: global alpha was ignored when filling masks in
 async mode

---
 blend2d/raster/rendercommandprocasync_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rendercommandprocasync_p.h b/blend2d/raster/rendercommandprocasync_p.h
index fbf204c..9eba535 100644
--- a/blend2d/raster/rendercommandprocasync_p.h
+++ b/blend2d/raster/rendercommandprocasync_p.h
@@ -213,7 +213,7 @@ static CommandStatus fillBoxMaskA(ProcData& proc_data, const RenderCommand& comm
     const uint8_t* mask_data = (static_cast<const uint8_t*>(mask_impl->pixel_data) + intptr_t(maskY) * mask_impl->stride) + maskX * (mask_impl->depth / 8u);
 
     Pipeline::MaskCommand mask_commands[2];
-    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithoutGA : Pipeline::MaskCommandType::kVMaskA8WithGA;
+    Pipeline::MaskCommandType vMaskCmd = command.alpha() >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithGA : Pipeline::MaskCommandType::kVMaskA8WithoutGA;
 
     mask_commands[0].init_vmask(vMaskCmd, uint32_t(box_i.x0), uint32_t(box_i.x1), mask_data, mask_impl->stride);
     mask_commands[1].init_repeat();
-- 
2.43.0


From c23e4196d59ee4f9ecc9852a1e3afbbe9dcc207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 033/178] fix: stroking a curve with huge coordinates never
 terminated when splitting it made no progress

---
 blend2d/core/pathstroke.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 6bb5bf0..0438854 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -870,11 +870,20 @@ SmoothPolyTo:
           t = 1.0;
 
         BLPoint part[3];
+        BLPoint old0 = iter.part[0];
+        BLPoint old1 = iter.part[1];
+
         Geometry::split(Geometry::quad_ref(iter.part), Geometry::quad_out(part), Geometry::quad_out(iter.part), t);
         offset_quad_simple(part[0], part[1], part[2]);
 
         if (t == 1.0)
           break;
+
+        // The curve is too small considering the magnitude of its coordinates - splitting it makes no progress.
+        if (iter.part[0] == old0 && iter.part[1] == old1) {
+          offset_quad_simple(iter.part[0], iter.part[1], iter.part[2]);
+          break;
+        }
       }
     } while (iter.next());
 
-- 
2.43.0


From 7d97a6f7bfadff4134b3748fefef6f80b10c9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 034/178] fix: non-finite or huge geometry caused memory
 corruption, hangs and drawing outside of the clip box

---
 blend2d/raster/edgebuilder_p.h | 84 +++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 17 deletions(-)

diff --git a/blend2d/raster/edgebuilder_p.h b/blend2d/raster/edgebuilder_p.h
index 7d8cb6d..d63eae5 100644
--- a/blend2d/raster/edgebuilder_p.h
+++ b/blend2d/raster/edgebuilder_p.h
@@ -62,9 +62,21 @@ class EdgeTransformNone {
 public:
   BL_INLINE EdgeTransformNone() noexcept {}
   BL_INLINE void apply(BLPoint& dst, const BLPoint& src) noexcept { dst = src; }
+  BL_INLINE bool is_finite() const noexcept { return true; }
 };
 
-class EdgeTransformScale {
+//! Accumulates non-finite coordinates (every finite coordinate contributes with zero).
+//!
+//! Edges built from a figure that contains NaNs or infinities don't have to form a closed figure.
+class EdgeFiniteCheck {
+public:
+  double _acc = 0.0;
+
+  BL_INLINE void add(const BLPoint& p) noexcept { _acc += (p.x + p.y) * 0.0; }
+  BL_INLINE bool is_finite() const noexcept { return _acc == 0.0; }
+};
+
+class EdgeTransformScale : public EdgeFiniteCheck {
 public:
   double _sx, _sy;
   double _tx, _ty;
@@ -78,10 +90,11 @@ public:
 
   BL_INLINE void apply(BLPoint& dst, const BLPoint& src) noexcept {
     dst.reset(src.x * _sx + _tx, src.y * _sy + _ty);
+    add(dst);
   }
 };
 
-class EdgeTransformAffine {
+class EdgeTransformAffine : public EdgeFiniteCheck {
 public:
   BLMatrix2D _transform;
 
@@ -91,6 +104,7 @@ public:
 
   BL_INLINE void apply(BLPoint& dst, const BLPoint& src) noexcept {
     dst = _transform.map_point(src);
+    add(dst);
   }
 };
 
@@ -789,9 +803,14 @@ public:
     BL_INLINE uint32_t sign_bit() noexcept { return _sign_bit; }
     BL_INLINE void set_sign_bit(uint32_t sign_bit) noexcept { _sign_bit = sign_bit; }
 
+    // NOTE: Points must be clamped as clipping of large curves is not precise, so the clipped point can end up
+    // outside of the clip box.
+    BL_INLINE int fixed_x(double x) const noexcept { return Math::trunc_to_int(bl_clamp(x, _builder._clip_box_d.x0, _builder._clip_box_d.x1)); }
+    BL_INLINE int fixed_y(double y) const noexcept { return Math::trunc_to_int(bl_clamp(y, _builder._clip_box_d.y0, _builder._clip_box_d.y1)); }
+
     BL_INLINE BLResult open_at(double x, double y) noexcept {
-      int fx = Math::trunc_to_int(x);
-      int fy = Math::trunc_to_int(y);
+      int fx = fixed_x(x);
+      int fy = fixed_y(y);
 
       BL_PROPAGATE(_builder.descending_open());
       _builder.descending_add_unsafe(fx, fy);
@@ -800,8 +819,8 @@ public:
     }
 
     BL_INLINE BLResult add_line(double x, double y) noexcept {
-      int fx = Math::trunc_to_int(x);
-      int fy = Math::trunc_to_int(y);
+      int fx = fixed_x(x);
+      int fy = bl_max(fixed_y(y), int(_builder.descending_last()->y));
 
       return _builder.descending_add_checked(fx, fy, _sign_bit);
     }
@@ -1015,7 +1034,7 @@ LineTo:
       source.before_next_begin();
     }
 
-    return BL_SUCCESS;
+    return source._transform.is_finite() ? BL_SUCCESS : bl_make_error(BL_ERROR_INVALID_GEOMETRY);
   }
 
   BL_INLINE BLResult add_line_segment(double x0, double y0, double x1, double y1) noexcept {
@@ -1060,6 +1079,10 @@ LineTo:
   //! \name Low-Level API - Line To
   //! \{
 
+  // Returns false if a line described by the difference of its points `d` contains NaNs, infinities, or if it's
+  // too large to be clipped - if such line was processed it would produce edges that would not form closed figures.
+  static BL_INLINE bool is_valid_line(const BLPoint& d) noexcept { return bl_abs(d.x) + bl_abs(d.y) < 1e150; }
+
   // Terminology:
   //
   //   'a' - Line start point.
@@ -1247,6 +1270,9 @@ AscendingLineLoopB:
 BeforeClipEndPoint:
         p = a;
         d = b - a;
+
+        if (BL_UNLIKELY(!is_valid_line(d)))
+          return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
       }
       else {
         // Line - Partically or Completely Clipped
@@ -1384,6 +1410,10 @@ RestartClipLoop:
 
         // The start point of the line requires clipping.
         d = b - a;
+
+        if (BL_UNLIKELY(!is_valid_line(d)))
+          return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
         p.x = _clip_box_d.x1;
         p.y = _clip_box_d.y1;
 
@@ -1535,6 +1565,10 @@ RestartClipLoop:
             return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
         }
 
+        // The clipped point can be outside of the clip box if the coordinates of the line are large.
+        q.x = bl_clamp(q.x, _clip_box_d.x0, _clip_box_d.x1);
+        q.y = bl_clamp(q.y, _clip_box_d.y0, _clip_box_d.y1);
+
         BL_PROPAGATE(add_line_segment(p.x, p.y, q.x, q.y));
         double clippedBY = bl_clamp(b.y, _clip_box_d.y0, _clip_box_d.y1);
 
@@ -1650,6 +1684,10 @@ RestartClipLoop:
         continue;
       }
 
+      uint32_t any_flags = p0_flags | p1_flags | p2_flags;
+      if (BL_UNLIKELY(any_flags && !is_valid_curve(abs_sum(p0) + abs_sum(p1) + abs_sum(p2))))
+        return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
       spline[0] = p0;
 
       BLPoint* spline_ptr = spline;
@@ -1661,7 +1699,6 @@ RestartClipLoop:
       Appender appender(*this);
       FlattenMonoQuad mono_curve(state.flatten_data, _flatten_tolerance_sq);
 
-      uint32_t any_flags = p0_flags | p1_flags | p2_flags;
       if (any_flags) {
         // One or more quad may need clipping.
         do {
@@ -1791,6 +1828,10 @@ RestartClipLoop:
         continue;
       }
 
+      uint32_t any_flags = p0_flags | p1_flags | p2_flags | p3_flags;
+      if (BL_UNLIKELY(any_flags && !is_valid_curve(abs_sum(p0) + abs_sum(p1) + abs_sum(p2) + abs_sum(p3))))
+        return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+
       spline[0] = p0;
 
       BLPoint* spline_ptr = spline;
@@ -1802,7 +1843,6 @@ RestartClipLoop:
       Appender appender(*this);
       FlattenMonoCubic mono_curve(state.flatten_data, _flatten_tolerance_sq);
 
-      uint32_t any_flags = p0_flags | p1_flags | p2_flags | p3_flags;
       if (any_flags) {
         // One or more cubic may need clipping.
         do {
@@ -1863,6 +1903,12 @@ RestartClipLoop:
   //! \name Curve Helpers
   //! \{
 
+  static BL_INLINE double abs_sum(const BLPoint& p) noexcept { return bl_abs(p.x) + bl_abs(p.y); }
+
+  // Returns false if a curve having control points that sum up to `sum` contains NaNs or is too large to be clipped
+  // and flattened (flattening needs to calculate 4th power of the size of the curve).
+  static BL_INLINE bool is_valid_curve(double sum) noexcept { return sum < 1e60; }
+
   template<typename MonoCurveT>
   BL_INLINE BLResult flatten_safe_mono_curve(MonoCurveT& mono_curve, Appender& appender, const BLPoint* src, uint32_t sign_bit) noexcept {
     mono_curve.begin(src, sign_bit);
@@ -2032,7 +2078,7 @@ RestartClipLoop:
 
             if (mono_curve.last().x > _clip_box_d.x0) {
 LeftToRight_BeforeX0_Clip:
-              double y_clipped = mono_curve.first().y + (_clip_box_d.x0 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first());
+              double y_clipped = bl_clamp(mono_curve.first().y + (_clip_box_d.x0 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first()), mono_curve.first().y, mono_curve.last().y);
               completely_out = (y_clipped >= y_end);
 
               if (completely_out)
@@ -2075,7 +2121,7 @@ LeftToRight_BeforeX0_Pop:
 LeftToRight_AddLine:
             completely_out = mono_curve.last().x > _clip_box_d.x1;
             if (completely_out) {
-              double y_clipped = mono_curve.first().y + (_clip_box_d.x1 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first());
+              double y_clipped = bl_clamp(mono_curve.first().y + (_clip_box_d.x1 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first()), mono_curve.first().y, mono_curve.last().y);
               if (y_clipped <= y_end) {
                 y_start = y_clipped;
                 BL_PROPAGATE(appender.add_line(_clip_box_d.x1, y_clipped));
@@ -2194,7 +2240,7 @@ LeftToRight_AddLine:
 
             if (mono_curve.last().x < _clip_box_d.x1) {
 RightToLeft_AfterX1_Clip:
-              double y_clipped = mono_curve.first().y + (_clip_box_d.x1 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first());
+              double y_clipped = bl_clamp(mono_curve.first().y + (_clip_box_d.x1 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first()), mono_curve.first().y, mono_curve.last().y);
               completely_out = (y_clipped >= y_end);
 
               if (completely_out)
@@ -2237,7 +2283,7 @@ RightToLeft_AfterX1_Pop:
 RightToLeft_AddLine:
             completely_out = mono_curve.last().x < _clip_box_d.x0;
             if (completely_out) {
-              double y_clipped = mono_curve.first().y + (_clip_box_d.x0 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first());
+              double y_clipped = bl_clamp(mono_curve.first().y + (_clip_box_d.x0 - mono_curve.first().x) * dy_div_dx(mono_curve.last() - mono_curve.first()), mono_curve.first().y, mono_curve.last().y);
               if (y_clipped <= y_end) {
                 y_start = y_clipped;
                 BL_PROPAGATE(appender.add_line(_clip_box_d.x0, y_clipped));
@@ -2426,9 +2472,13 @@ RightToLeft_AddLine:
     return accumulate_right_border(y0, y1);
   }
 
+  // Converts accumulated border coordinate, which could be slightly outside of the clip box if it was calculated from
+  // huge coordinates, into fixed point.
+  BL_INLINE int border_y(double y) const noexcept { return bl_clamp(Math::trunc_to_int(y), int(_clip_box_i.y0), int(_clip_box_i.y1)); }
+
   BL_INLINE BLResult _emit_left_border() noexcept {
-    int accY0 = Math::trunc_to_int(_border_acc_x0_y0);
-    int accY1 = Math::trunc_to_int(_border_acc_x0_y1);
+    int accY0 = border_y(_border_acc_x0_y0);
+    int accY1 = border_y(_border_acc_x0_y1);
 
     if (accY0 == accY1)
       return BL_SUCCESS;
@@ -2443,8 +2493,8 @@ RightToLeft_AddLine:
   }
 
   BL_INLINE BLResult _emit_right_border() noexcept {
-    int accY0 = Math::trunc_to_int(_border_acc_x1_y0);
-    int accY1 = Math::trunc_to_int(_border_acc_x1_y1);
+    int accY0 = border_y(_border_acc_x1_y0);
+    int accY1 = border_y(_border_acc_x1_y1);
 
     if (accY0 == accY1)
       return BL_SUCCESS;
-- 
2.43.0


From baa7ee64f84df0a4a2782bb2ddd0878bc5ebb20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 035/178] fix: failed edge building left stale edges in bands
 and released edges of other commands

---
 blend2d/raster/edgestorage_p.h     |  8 ++++++++
 blend2d/raster/workdata_p.h        | 12 +++++++++---
 blend2d/support/arenaallocator_p.h |  3 ++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/edgestorage_p.h b/blend2d/raster/edgestorage_p.h
index 9d50a5f..ceab898 100644
--- a/blend2d/raster/edgestorage_p.h
+++ b/blend2d/raster/edgestorage_p.h
@@ -117,6 +117,14 @@ public:
     }
   }
 
+  //! Clears all bands regardless of the bounding box - used when the bounding box is not known, because building
+  //! of edges has failed.
+  BL_INLINE void clear_all_bands() noexcept {
+    for (size_t i = 0; i < _band_count; i++)
+      _band_edges[i].reset();
+    reset_bounding_box();
+  }
+
   BL_INLINE bool is_empty() const noexcept { return _bounding_box.y0 == Traits::max_value<int>(); }
 
   BL_INLINE EdgeList<CoordT>* band_edges() const noexcept { return _band_edges; }
diff --git a/blend2d/raster/workdata_p.h b/blend2d/raster/workdata_p.h
index 136d1b3..989c3b8 100644
--- a/blend2d/raster/workdata_p.h
+++ b/blend2d/raster/workdata_p.h
@@ -67,6 +67,8 @@ public:
   ArenaAllocator work_zone;
   //! The last state of the zone to be reverted to in case of failure.
   ArenaAllocator::StatePtr work_state {};
+  //! Work state end - edge builder allocates from both ends of the arena block.
+  void* work_state_end {};
   //! Zero memory filled by rasterizers and zeroed back by pipelines.
   ZeroBuffer zero_buffer;
   //! Edge storage.
@@ -117,16 +119,20 @@ public:
 
   BL_INLINE void save_state() noexcept {
     work_state = work_zone.save_state();
+    work_state_end = work_zone.end<void>();
   }
 
   BL_INLINE void restore_state() noexcept {
     work_zone.restore_state(work_state);
+    // If the block that was current when the state was saved is current again its end has to be restored too as edges
+    // that have been already built could be stored there.
+    if (work_zone.ptr<void>() == work_state)
+      work_zone.set_end(work_state_end);
   }
 
   BL_INLINE void revert_edge_builder() noexcept {
-    edge_builder.merge_bounding_box();
-    edge_storage.clear();
-    work_zone.restore_state(work_state);
+    edge_storage.clear_all_bands();
+    restore_state();
   }
 
   //! Accumulates the error result into error flags of this work-data. Used by both synchronous and asynchronous
diff --git a/blend2d/support/arenaallocator_p.h b/blend2d/support/arenaallocator_p.h
index f6628b7..8756422 100644
--- a/blend2d/support/arenaallocator_p.h
+++ b/blend2d/support/arenaallocator_p.h
@@ -377,7 +377,8 @@ public:
     Block* block = _block;
     size_t alignment = block_alignment();
 
-    while (p < block->data() || p >= block->end()) {
+    // NOTE: `p == block->end()` is a valid state of a block that is full.
+    while (p < block->data() || p > block->end()) {
       if (!block->prev) {
         // Special case - can happen in case that the allocator didn't have allocated any block when `save_state()`
         // was called. In that case we won't restore to the shared null block, instead we restore to the first block
-- 
2.43.0


From 0c25b26bd9a189bd934df0891106b9b7281e13e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 036/178] fix: integer overflow in clip_to_rect, sub-unit clip
 and mask boxes, and blits of an empty image area (division by zero)

---
 blend2d/raster/rastercontext.cpp | 37 +++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..21a15f5 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2172,11 +2172,18 @@ static BLResult clip_to_final_box(BLRasterContextImpl* ctx_impl, const BLBox& in
   BLBox b;
   on_before_clip_box_change(ctx_impl);
 
-  if (Geometry::intersect(b, ctx_impl->final_clip_box_d(), input_box)) {
+  bool has_clip_box = Geometry::intersect(b, ctx_impl->final_clip_box_d(), input_box);
+  if (has_clip_box) {
+    ctx_impl->set_final_clip_box_fixed_d(b * ctx_impl->fp_scale_d());
+
+    // The intersection could be smaller than a single fixed point unit, in that case there is nothing to render to.
+    const BLBoxI& clipBoxFixedI = ctx_impl->final_clip_box_fixed_i();
+    has_clip_box = clipBoxFixedI.x0 < clipBoxFixedI.x1 && clipBoxFixedI.y0 < clipBoxFixedI.y1;
+  }
+
+  if (has_clip_box) {
     int fpMaskI = ctx_impl->render_target_info.fpMaskI;
     int fpShiftI = ctx_impl->render_target_info.fpShiftI;
-
-    ctx_impl->set_final_clip_box_fixed_d(b * ctx_impl->fp_scale_d());
     const BLBoxI& clipBoxFixedI = ctx_impl->final_clip_box_fixed_i();
 
     ctx_impl->internal_state.final_clip_box_d = b;
@@ -2255,10 +2262,12 @@ Use64Bit:
     int64_t x1 = x0 + int64_t(rect->w);
     int64_t y1 = y0 + int64_t(rect->h);
 
-    b.x0 = int(bl_max<int64_t>(x0, ctx_impl->final_clip_box_i().x0));
-    b.y0 = int(bl_max<int64_t>(y0, ctx_impl->final_clip_box_i().y0));
-    b.x1 = int(bl_min<int64_t>(x1, ctx_impl->final_clip_box_i().x1));
-    b.y1 = int(bl_min<int64_t>(y1, ctx_impl->final_clip_box_i().y1));
+    // Clamp to both sides of the current clip box so the result is always representable by `int`.
+    const BLBoxI& clip = ctx_impl->final_clip_box_i();
+    b.x0 = int(bl_clamp<int64_t>(x0, clip.x0, clip.x1));
+    b.y0 = int(bl_clamp<int64_t>(y0, clip.y0, clip.y1));
+    b.x1 = int(bl_clamp<int64_t>(x1, clip.x0, clip.x1));
+    b.y1 = int(bl_clamp<int64_t>(y1, clip.y0, clip.y1));
   }
 
   if (b.x0 < b.x1 && b.y0 < b.y1) {
@@ -3610,6 +3619,10 @@ static BL_INLINE BLResult fill_unclipped_mask_d(BLRasterContextImpl* ctx_impl, D
 
     BLBoxI dst_box_u = Math::trunc_to_int(dst_box_d);
 
+    // Clipped out - this is required as the difference between x0 & x1 and y0 & y1 could be smaller than our fixed point.
+    if (!((dst_box_u.x0 < dst_box_u.x1) & (dst_box_u.y0 < dst_box_u.y1)))
+      return BL_SUCCESS;
+
     if (!((start_fx | start_fy) & ctx_impl->render_target_info.fpMaskI)) {
       // Pixel aligned mask.
       int x0 = dst_box_u.x0 >> ctx_impl->render_target_info.fpShiftI;
@@ -3948,7 +3961,7 @@ static BLResult BL_CDECL blit_image_d_impl(BLContextImpl* base_impl, const BLPoi
   BLRectI src_rect;
 
   BLResult bail_result = check_image_area(src_rect, image_impl, img_area);
-  bool bail = bail_result != BL_SUCCESS;
+  bool bail = bail_result != BL_SUCCESS || src_rect.w == 0 || src_rect.h == 0;
   BL_CONTEXT_RESOLVE_BLIT_OP(ContextFlags::kNoBlitFlags, image_impl->format, bail);
 
   BLBox final_box;
@@ -4079,6 +4092,10 @@ static BLResult BL_CDECL blit_scaled_image_d_impl(BLContextImpl* base_impl, cons
   BLRectI src_rect;
   BL_PROPAGATE(check_image_area(src_rect, image_impl, img_area));
 
+  // Nothing to blit if `img_area` is empty.
+  if (src_rect.w == 0 || src_rect.h == 0)
+    return BL_SUCCESS;
+
   // OPTIMIZATION: Don't go over all the transformations if the destination and source rects have the same size.
   if (bool_and(rect->w == double(src_rect.w), rect->h == double(src_rect.h)))
     return blit_image_d_impl<kRM>(ctx_impl, reinterpret_cast<const BLPoint*>(rect), img, img_area);
@@ -4119,6 +4136,10 @@ static BLResult BL_CDECL blit_scaled_image_i_impl(BLContextImpl* base_impl, cons
   BLRectI src_rect;
   BL_PROPAGATE(check_image_area(src_rect, image_impl, img_area));
 
+  // Nothing to blit if `img_area` is empty.
+  if (src_rect.w == 0 || src_rect.h == 0)
+    return BL_SUCCESS;
+
   // OPTIMIZATION: Don't go over all the transformations if the destination and source rects have the same size.
   if (bool_and(rect->w == src_rect.w, rect->h == src_rect.h))
     return blit_image_i_impl<kRM>(ctx_impl, reinterpret_cast<const BLPointI*>(rect), img, img_area);
-- 
2.43.0


From f47ef7198f884e19b1f7a56bba5c1f9dd1f585c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 037/178] fix: stroking a tiny curve at huge coordinates could
 still alternate between two states forever

---
 blend2d/core/pathstroke.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 0438854..5e0c502 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -871,7 +871,6 @@ SmoothPolyTo:
 
         BLPoint part[3];
         BLPoint old0 = iter.part[0];
-        BLPoint old1 = iter.part[1];
 
         Geometry::split(Geometry::quad_ref(iter.part), Geometry::quad_out(part), Geometry::quad_out(iter.part), t);
         offset_quad_simple(part[0], part[1], part[2]);
@@ -880,7 +879,7 @@ SmoothPolyTo:
           break;
 
         // The curve is too small considering the magnitude of its coordinates - splitting it makes no progress.
-        if (iter.part[0] == old0 && iter.part[1] == old1) {
+        if (iter.part[0] == old0) {
           offset_quad_simple(iter.part[0], iter.part[1], iter.part[2]);
           break;
         }
-- 
2.43.0


From 501a99c48bc35ac1ad30b3eb2488b820d07cb861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 038/178] fix: flush of an async context corrupted the integer
 clip box and flatten tolerance of the context

---
 blend2d/raster/rastercontext.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 21a15f5..8a5e287 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -190,9 +190,17 @@ public:
 class SyncWorkState {
 public:
   BLBox _clip_box_d;
+  double _flatten_tolerance_sq;
 
-  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept { _clip_box_d = work_data.edge_builder._clip_box_d; }
-  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept { work_data.edge_builder._clip_box_d = _clip_box_d; }
+  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept {
+    _clip_box_d = work_data.edge_builder._clip_box_d;
+    _flatten_tolerance_sq = work_data.edge_builder._flatten_tolerance_sq;
+  }
+
+  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept {
+    work_data.edge_builder.set_clip_box(_clip_box_d);
+    work_data.edge_builder.set_flatten_tolerance_sq(_flatten_tolerance_sq);
+  }
 };
 
 // bl::RasterEngine - ContextImpl - Internals - Core State
-- 
2.43.0


From 2e96c0abdd689b0e8dab341394a04a4a978234cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 039/178] fix: type tests such as BLVar::is_rgba32() also
 matched other types whose number contains the same bits

---
 blend2d/core/object.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/object.h b/blend2d/core/object.h
index e5e0be5..cc1bd78 100644
--- a/blend2d/core/object.h
+++ b/blend2d/core/object.h
@@ -504,7 +504,7 @@ struct BLObjectInfo {
 
   //! Tests whether BLObjectInfo describes a valid BLObject of the given `type`.
   BL_INLINE_CONSTEXPR bool check_object_signature_and_raw_type(BLObjectType type) const noexcept {
-    return has_object_signature_and_flags(uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
+    return has_object_signature_and_flags(BL_OBJECT_INFO_TYPE_MASK, uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
   }
 
   //! \}
-- 
2.43.0


From 00056d967b7a1e45a4138e9c2385997fbcfada77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 040/178] fix: swap_styles() after save() tested the fill flag
 when retaining the stroke style's fetch data

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 8a5e287..81f7ec0 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1973,7 +1973,7 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
 
     if (bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       ctx_impl->saved_state->style[kStrokeSlot].copy_from(state.style[kStrokeSlot]);
-      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
         state.style[kStrokeSlot].get_render_fetch_data()->ref_count++;
     }
 
-- 
2.43.0


From 30ca5572cbe1d24382b19c18f5e35d577013e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 041/178] fix: stroke caps and join changed after save() were
 not restored by restore()

---
 blend2d/raster/rastercontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 81f7ec0..ccd0e0e 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2090,7 +2090,7 @@ static BLResult BL_CDECL set_stroke_cap_impl(BLContextImpl* base_impl, BLStrokeC
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.caps[position] = uint8_t(stroke_cap);
   return BL_SUCCESS;
@@ -2103,7 +2103,7 @@ static BLResult BL_CDECL set_stroke_caps_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   for (uint32_t i = 0; i <= BL_STROKE_CAP_POSITION_MAX_VALUE; i++)
     ctx_impl->internal_state.stroke_options.caps[i] = uint8_t(stroke_cap);
@@ -2117,7 +2117,7 @@ static BLResult BL_CDECL set_stroke_join_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.join = uint8_t(stroke_join);
   return BL_SUCCESS;
-- 
2.43.0


From 7b677ad78a0a90bc2edcc7bbdedf5c29e4ec3b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 042/178] fix: swap_styles() leaked neighbouring context flags
 (for example an empty clip) into the style flags

---
 blend2d/raster/rastercontext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index ccd0e0e..f85391c 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1985,8 +1985,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     state.style[kFillSlot].swap(state.style[kStrokeSlot]);
     BLInternal::swap(state.style_type[kFillSlot], state.style_type[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeStyle | ContextFlags::kFetchDataFillAndStroke;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillStyle | ContextFlags::kFetchDataFill;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeStyle | ContextFlags::kFetchDataStroke;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   // Swap fill and stroke alphas.
@@ -1994,8 +1995,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.style_alpha[kFillSlot], state.style_alpha[kStrokeSlot]);
     BLInternal::swap(state.styleAlphaI[kFillSlot], state.styleAlphaI[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeAlpha;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillAlpha;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeAlpha;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   ctx_impl->context_flags = context_flags;
-- 
2.43.0


From b89a91a4930aedc7c7bf6d1011d0cbc2389c47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 043/178] fix: restore_clipping() without a saved state kept
 the unaligned clip mode

---
 blend2d/raster/rastercontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index f85391c..6208cfa 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2312,6 +2312,7 @@ static BLResult BL_CDECL restore_clipping_impl(BLContextImpl* base_impl) noexcep
       // the initial state, which is accessible through `meta_clip_box_i` member.
       ctx_impl->context_flags &= ~(ContextFlags::kNoClipRect | ContextFlags::kSharedStateFill);
       reset_clipping_to_meta_clip_box(ctx_impl);
+      ctx_impl->sync_work_data.clip_mode = BL_CLIP_MODE_ALIGNED_RECT;
     }
   }
 
-- 
2.43.0


From f3388793437fa3a3510d718f28a4d18cd56d8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 044/178] fix: fill_mask() with an explicit style was skipped
 when the current fill style was empty

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 6208cfa..215ce61 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3723,7 +3723,7 @@ static BLResult BL_CDECL fill_mask_d_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 }
 
@@ -3737,7 +3737,7 @@ static BLResult BL_CDECL fill_mask_d_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
@@ -3783,7 +3783,7 @@ static BLResult BL_CDECL fill_mask_i_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 }
 
@@ -3805,7 +3805,7 @@ static BLResult BL_CDECL fill_mask_i_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
-- 
2.43.0


From f478e622d817a3f4e7d9ece143bc9f93d43c1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 045/178] fix: fill_mask() read masks of other formats than A8
 as if they were A8

---
 blend2d/raster/rastercontext.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 215ce61..4fc8a19 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3161,6 +3161,11 @@ BL_NOINLINE BLResult fill_clipped_box_masked_a<kSync>(
     BLRasterContextImpl* ctx_impl, DispatchInfo di, DispatchStyle ds,
     const BLBoxI& box_a, const BLImageCore* mask, const BLPointI& mask_offset_i) noexcept {
 
+  // The fill pipeline reads 8-bit coverage, other mask formats are not implemented.
+  if (BL_UNLIKELY(ImageInternal::get_impl(mask)->format != BL_FORMAT_A8)) {
+    return bl_make_error(BL_ERROR_NOT_IMPLEMENTED);
+  }
+
   Pipeline::DispatchData dispatch_data;
 
   di.add_fill_type(Pipeline::FillType::kMask);
@@ -3178,6 +3183,11 @@ BL_NOINLINE BLResult fill_clipped_box_masked_a<kAsync>(
     BLRasterContextImpl* ctx_impl, DispatchInfo di, DispatchStyle ds,
     const BLBoxI& box_a, const BLImageCore* mask, const BLPointI& mask_offset_i) noexcept {
 
+  // The fill pipeline reads 8-bit coverage, other mask formats are not implemented.
+  if (BL_UNLIKELY(ImageInternal::get_impl(mask)->format != BL_FORMAT_A8)) {
+    return bl_make_error(BL_ERROR_NOT_IMPLEMENTED);
+  }
+
   RenderCommand* command = ctx_impl->worker_mgr->current_command();
 
   di.add_fill_type(Pipeline::FillType::kMask);
-- 
2.43.0


From 4edf9a7d1403dc028ea52226b407abf67d7627cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 046/178] fix: assigning unsorted or duplicate gradient stops
 dropped the last stop

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ba5fd61..4154d2e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   double prev1 = -1.0; // Dummy, cannot be within [0..1] range.
   double prev2 = -1.0;
 
-  for (size_t i = 0; i < n - 1u; i++) {
+  for (size_t i = 0; i < n; i++) {
     double offset = stops[i].offset;
     BLRgba64 rgba = src[size_t(stops[i].index)].rgba;
 
-- 
2.43.0


From 39d2fdda241e550801083c362a27cc6cc1dafae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 047/178] fix: copy-on-write of a gradient dropped values that
 its type does not use

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 4154d2e..523507c 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -368,7 +368,7 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   const BLGradientPrivateImpl* other_impl = get_impl(other);
 
   BLGradientCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, value_count_table[get_gradient_type(other)], &other_impl->transform));
+  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &other_impl->transform));
 
   newO._d.info.set_fields(fields);
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From 79d295f10cbb9b71669bbddcebb1ee71b278f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 048/178] fix: removing gradient stops from a shared gradient
 removed all of them

---
 blend2d/core/gradient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 523507c..69b7255 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -874,6 +874,7 @@ BL_API_IMPL BLResult bl_gradient_remove_stops_by_index(BLGradientCore* self, siz
     BLGradientStop* new_stops = new_impl->stops;
     copy_stops(new_stops, stops, index);
     copy_stops(new_stops + index, stops + end, shifted_count);
+    new_impl->size = after_count;
     return replace_instance(self, &newO);
   }
   else {
-- 
2.43.0


From 8d42c9ec056afb6a626032d4458dd247adbc7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 049/178] fix: replacing a gradient stop by one with an invalid
 offset removed it

---
 blend2d/core/gradient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 69b7255..a98ad60 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -923,6 +923,9 @@ BL_API_IMPL BLResult bl_gradient_replace_stop_rgba64(BLGradientCore* self, size_
   if (BL_UNLIKELY(index >= get_size(self)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+  if (BL_UNLIKELY(!(offset >= 0.0 && offset <= 1.0)))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   BL_PROPAGATE(make_mutable(self, false));
 
   BLGradientPrivateImpl* self_impl = get_impl(self);
-- 
2.43.0


From 7e3d53b4244560aa0d6c1622d46319c2374c42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 050/178] fix: equal gradients compared unequal when one of
 them used a built-in or external impl

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index a98ad60..fc0cbef 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1011,7 +1011,7 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
   const BLGradientPrivateImpl* a_impl = get_impl(a);
   const BLGradientPrivateImpl* b_impl = get_impl(b);
 
-  if (a->_d.info != b->_d.info)
+  if (a->_d.fields() != b->_d.fields())
     return false;
 
   if (a_impl == b_impl)
-- 
2.43.0


From 2cd412d693b5fe7989f152507434f8814fb2b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 051/178] fix: gradients with different values (geometry)
 compared equal

---
 blend2d/core/gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index fc0cbef..3df2a6e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1019,6 +1019,10 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
 
   size_t size = a_impl->size;
   unsigned eq = unsigned(a_impl->transform == b_impl->transform) & unsigned(size == b_impl->size);
+
+  for (size_t i = 0; i <= BL_GRADIENT_VALUE_MAX_VALUE; i++)
+    eq &= unsigned(a_impl->values[i] == b_impl->values[i]);
+
   return eq && memcmp(a_impl->stops, b_impl->stops, size * sizeof(BLGradientStop)) == 0;
 }
 
-- 
2.43.0


From 56aa43b9b8fa257646598a6fa7592987dc15ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 052/178] fix: radial gradients sampled pixels off their centre
 under rotation or skew

---
 blend2d/pipeline/pipedefs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 3d4b1b8..89e3927 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -529,7 +529,7 @@ static BL_INLINE Signature init_radial_gradient(FetchData::Gradient& fetch_data,
   double xy = inv.m01;
   double yx = inv.m10;
   double yy = inv.m11;
-  BLPoint tp = BLPoint(inv.m20 + (xx + xy) * 0.5, inv.m21 + (yx + yy) * 0.5) - fp;
+  BLPoint tp = BLPoint(inv.m20 + (xx + yx) * 0.5, inv.m21 + (xy + yy) * 0.5) - fp;
 
   fetch_data.radial.tx = tp.x;
   fetch_data.radial.ty = tp.y;
-- 
2.43.0


From f4e30f67cf2a075d024da0fbcc2e0bb2998f7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 053/178] fix: conic gradients were distorted by non-uniform
 scaling, skew and reflection

---
 blend2d/pipeline/pipedefs.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/blend2d/pipeline/pipedefs.cpp b/blend2d/pipeline/pipedefs.cpp
index 89e3927..5e00c0d 100644
--- a/blend2d/pipeline/pipedefs.cpp
+++ b/blend2d/pipeline/pipedefs.cpp
@@ -623,11 +623,14 @@ static BL_INLINE Signature init_conic_gradient(FetchData::Gradient& fetch_data,
   // Invert the origin and move it to the center of the pixel.
   c = BLPoint(0.5, 0.5) - transform.map_point(c);
 
-  BLPoint v = transform.map_vector(BLPoint(1.0, 0.0));
-  double matrix_angle = atan2(v.y, v.x);
+  BLMatrix2D inv;
+  if (BLMatrix2D::invert(inv, transform) != BL_SUCCESS)
+    return Signature::from_pending_flag(1);
 
-  BLMatrix2D updated_transform(transform);
-  updated_transform.rotate(-matrix_angle, c);
+  // Rotate the gradient space so a horizontal step in the target doesn't change the Y coordinate (the fetcher
+  // relies on that), and compensate for it by changing the angle.
+  double matrix_angle = -atan2(inv.m01, inv.m00);
+  inv.post_rotate(matrix_angle);
 
   angle += matrix_angle;
   double off = Math::frac(angle / -Math::kPI_MUL_2);
@@ -635,10 +638,6 @@ static BL_INLINE Signature init_conic_gradient(FetchData::Gradient& fetch_data,
   if (off != 0.0)
     off = -1.0 + off;
 
-  BLMatrix2D inv;
-  if (BLMatrix2D::invert(inv, updated_transform) != BL_SUCCESS)
-    return Signature::from_pending_flag(1);
-
   fetch_data.conic.tx = c.x * inv.m00 + c.y * inv.m10;
   fetch_data.conic.ty = c.x * inv.m01 + c.y * inv.m11;
   fetch_data.conic.yx = inv.m10;
-- 
2.43.0


From 73fad1ec78eaf650ab861c6ac6c59c583735f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 054/178] fix: reserving gradient capacity below the number of
 stops of a shared gradient overflowed the new impl

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 3df2a6e..49062ec 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -565,7 +565,7 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
 
   BLGradientCore newO;
 
-  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(n), BLObjectImplSize(kInitialImplSize));
+  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(bl_max(n, self_impl->size)), BLObjectImplSize(kInitialImplSize));
   BL_PROPAGATE(alloc_impl(&newO, impl_size, self_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &self_impl->transform));
 
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From 7e08dc9f2b79c7ac67feafcb247fb43fe3ffe4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 055/178] fix: fills of integer rectangles and blits at integer
 positions ignored the fractions of an unaligned clip

---
 blend2d/raster/rastercontext.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 4fc8a19..c353930 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2920,7 +2920,8 @@ static BL_INLINE BLResult fillUnclippedRectI(BLRasterContextImpl* ctx_impl, Disp
   int rw = rect_i.w;
   int rh = rect_i.h;
 
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  // Integral coordinates are only enough if both the translation and the clip are integral.
+  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation) || ctx_impl->clip_mode() != BL_CLIP_MODE_ALIGNED_RECT) {
     // Clipped out.
     if ((rw <= 0) | (rh <= 0))
       return BL_SUCCESS;
@@ -4071,7 +4072,7 @@ static BLResult BL_CDECL blit_image_i_impl(BLContextImpl* base_impl, const BLPoi
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
   BLImageImpl* image_impl = ImageInternal::get_impl(img);
 
-  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation)) {
+  if (!bl_test_flag(ctx_impl->context_flags, ContextFlags::kInfoIntegralTranslation) || ctx_impl->clip_mode() != BL_CLIP_MODE_ALIGNED_RECT) {
     BLPoint origin_d(*origin);
     return blit_image_d_impl<kRM>(ctx_impl, &origin_d, img, img_area);
   }
-- 
2.43.0


From 5a3dfcdb1e30b9a6f80b7c21d25b73e0bc7e29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 056/178] fix: reserving or modifying a path with a huge vertex
 count overflowed the allocation size

---
 blend2d/core/path.cpp | 6 ++++++
 blend2d/core/path_p.h | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 1234d8b..cb328a0 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -385,6 +385,9 @@ BL_API_IMPL BLResult bl_path_reserve(BLPathCore* self, size_t n) noexcept {
   BLPathPrivateImpl* self_impl = get_impl(self);
   size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
+  if (BL_UNLIKELY(n > max_capacity()))
+    return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
   if ((n | immutable_msk) > self_impl->capacity)
     return realloc_path(self, impl_size_from_capacity(bl_max(n, self_impl->size)));
 
@@ -406,6 +409,9 @@ BL_API_IMPL BLResult bl_path_modify_op(BLPathCore* self, BLModifyOp op, size_t n
     *cmd_data_out = nullptr;
     *vtx_data_out = nullptr;
 
+    if (BL_UNLIKELY(n > max_capacity() - index))
+      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
     BLPathCore newO;
     BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
     BL_PROPAGATE(alloc_impl(&newO, size_after, impl_size));
diff --git a/blend2d/core/path_p.h b/blend2d/core/path_p.h
index 24d2a1f..899277a 100644
--- a/blend2d/core/path_p.h
+++ b/blend2d/core/path_p.h
@@ -40,6 +40,10 @@ static BL_INLINE constexpr BLObjectImplSize impl_size_from_capacity(size_t capac
   return BLObjectImplSize(sizeof(BLPathPrivateImpl) + capacity * (sizeof(BLPoint) + 1));
 }
 
+static BL_INLINE constexpr size_t max_capacity() noexcept {
+  return capacity_from_impl_size(BLObjectImplSize(BL_OBJECT_IMPL_MAX_SIZE));
+}
+
 //! \}
 
 //! \name BLPath - Internals - Common Functionality (Impl)
-- 
2.43.0


From b24dabe37f232600245c7705704549d13cb116dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 057/178] fix: adding polygons and box or rectangle arrays
 counter-clockwise read past the end of the source

---
 blend2d/core/path.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index cb328a0..8ae822b 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1647,7 +1647,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
@@ -1666,7 +1666,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
@@ -1688,7 +1688,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1710,7 +1710,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1737,7 +1737,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1769,7 +1769,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += array->size - 1;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
-- 
2.43.0


From 426360a1af164b6c0332211ac216e74abbfb4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 058/178] fix: adding a path to itself counter-clockwise also
 reversed the uninitialized room reserved for the result

---
 blend2d/core/path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 8ae822b..6fa997e 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1788,8 +1788,10 @@ AddBoxD:
       // Only for appending path in reverse order, otherwise we use a better approach.
       BL_ASSERT(dir != BL_GEOMETRY_DIRECTION_CW);
 
+      // NOTE: Must use `n` instead of the size of `other` as `self` and `other` can be the same path.
       const BLPathPrivateImpl* other_impl = get_impl(static_cast<const BLPath*>(geometry_data));
-      BLResult result = copy_content_reversed(appender, bl::PathIterator(other_impl->view), BL_PATH_REVERSE_MODE_COMPLETE);
+      bl::PathIterator src(other_impl->command_data, other_impl->vertex_data, n);
+      BLResult result = copy_content_reversed(appender, src, BL_PATH_REVERSE_MODE_COMPLETE);
 
       if (result != BL_SUCCESS) {
         set_size(self, initial_size);
-- 
2.43.0


From 5effa74f28fcbf47bc2348193291aad161145326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 059/178] fix: adding a reversed and transformed path
 transformed weights of conics

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 6fa997e..e5aca7c 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1811,7 +1811,7 @@ AddBoxD:
 
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLPoint* vtx_data = self_impl->vertex_data + initial_size;
-  return bl_matrix2d_map_pointd_array(m, vtx_data, vtx_data, self_impl->size - initial_size);
+  return map_vertices(m, m->type(), vtx_data, vtx_data, self_impl->command_data + initial_size, self_impl->size - initial_size);
 }
 
 BL_API_IMPL BLResult bl_path_add_path(BLPathCore* self, const BLPathCore* other, const BLRange* range) noexcept {
-- 
2.43.0


From 4abb8b6d3cb907cc5bed5b19261fd468b64a115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 060/178] fix: reversing a path swapped control points of
 conics with their weights

---
 blend2d/core/path.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index e5aca7c..752bbf3 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -851,6 +851,14 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
         if (cmd == BL_PATH_CMD_CLOSE)
           break;
 
+        // The weight of a conic always follows its control point.
+        if (cmd == BL_PATH_CMD_WEIGHT && src.remaining_backward() > 1 && src.cmd[-1] == BL_PATH_CMD_CONIC) {
+          dst.add_vertex(src.cmd[-1], src.vtx[-1]);
+          dst.add_vertex(src.cmd[0], src.vtx[0]);
+          src -= 2;
+          continue;
+        }
+
         dst.add_vertex(src.cmd[0], src.vtx[0]);
         src--;
       }
-- 
2.43.0


From 0e08e9b7ad712768a2e5782c92b3388a6e80820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 061/178] fix: reversing a closed figure of a single vertex
 emitted CLOSE before MOVE

---
 blend2d/core/path.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 752bbf3..bfe8f8a 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -828,6 +828,14 @@ static BLResult copy_content_reversed(PathAppender& dst, PathIterator src, BLPat
         if (!has_close)
           return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
 
+        // A figure that has only a single vertex and is closed.
+        if (!src.at_end() && src.cmd[0] == BL_PATH_CMD_MOVE) {
+          dst.move_to(src.vtx[0]);
+          dst.close();
+          src--;
+          continue;
+        }
+
         // Make sure the next command is ON, continue otherwise.
         if (src.at_end() || src.cmd[0] != BL_PATH_CMD_ON) {
           dst.add_vertex(BL_PATH_CMD_CLOSE, src.vtx[1]);
-- 
2.43.0


From 7be0b2281c43d6b6b6a27ad39effd76fb8d1b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 062/178] fix: a cleared path kept the bounding box of its
 former content and wasn't flagged as empty

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index bfe8f8a..bd435fd 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -352,7 +352,7 @@ BL_API_IMPL BLResult bl_path_clear(BLPathCore* self) noexcept {
     return replace_instance(self, static_cast<BLPathCore*>(&bl_object_defaults[BL_OBJECT_TYPE_PATH]));
 
   self_impl->size = 0;
-  self_impl->flags = 0;
+  self_impl->flags = BL_PATH_FLAG_DIRTY;
   return BL_SUCCESS;
 }
 
-- 
2.43.0


From 1067063cefadf183ea6d587b5aeb1962208059de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 063/178] fix: the closest vertex of an invalid path was not
 found when a maximum distance was given

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index bd435fd..7bc112f 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2443,7 +2443,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     // This code-path can be used to skip the whole path if the given point is
     // too far. We need 'max_distance' to be specified and also bounding-box to
     // be available.
-    if (ensure_info(self_impl) != BL_SUCCESS) {
+    if (ensure_info(self_impl) == BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
       const BLBox& b_box = self_impl->control_box;
-- 
2.43.0


From e627f06292aa08cf0bc8f609683c19621ad9f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 064/178] fix: figure range of a CLOSE command extended into
 the next figure

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 7bc112f..e8b1357 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2347,7 +2347,7 @@ BL_API_IMPL BLResult bl_path_get_figure_range(const BLPathCore* self, size_t ind
 
   // Find end of the sub-path.
   size_t end = index + 1;
-  while (end < size) {
+  while (end < size && cmd_data[end - 1] != BL_PATH_CMD_CLOSE) {
     uint32_t cmd = cmd_data[end];
     if (cmd == BL_PATH_CMD_MOVE)
       break;
-- 
2.43.0


From d5e6a1575052dcdac4ad161ee44b5b533fc07d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 065/178] fix: fitting a path that doesn't start with MOVE read
 a vertex before its first one

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index e8b1357..85efeff 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2197,7 +2197,7 @@ BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, cons
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   PathInfoUpdater updater;
-  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, true));
+  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, start != 0));
 
   // TODO: Honor `fit_flags`.
   bl_unused(fit_flags);
-- 
2.43.0


From 5ec26664884ce9c15880b46945fc577fc396d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 066/178] fix: the control box was extended by weights of
 conics instead of by their control points

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 85efeff..9692dc9 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -660,7 +660,7 @@ public:
             Geometry::get_conic_extrema_points(vtx_data - 4, extrema);
             Geometry::bound(bounding_box, extrema[0]);
             Geometry::bound(bounding_box, extrema[1]);
-            Geometry::bound(control_box, vtx_data[-2]);
+            Geometry::bound(control_box, ctrl);
           }
           break;
         }
-- 
2.43.0


From a25c5f8fa82cb7719d5fd25163d84dcd466a70fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 067/178] fix: fitting a path that has zero width or height
 made its vertices NaN

---
 blend2d/core/path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 9692dc9..fde1da4 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2211,8 +2211,9 @@ BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, cons
 
   double tx = rect->x;
   double ty = rect->y;
-  double sx = rect->w / bw;
-  double sy = rect->h / bh;
+  // Don't scale a degenerate dimension as there is nothing to fit.
+  double sx = bw > 0.0 ? rect->w / bw : 1.0;
+  double sy = bh > 0.0 ? rect->h / bh : 1.0;
 
   tx -= bx * sx;
   ty -= by * sy;
-- 
2.43.0


From a72dd46411f132a1072f798647c63e1f87a73136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 068/178] fix: shrinking a path that has invalid geometry
 returned an error

---
 blend2d/core/path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index fde1da4..22bc930 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -374,8 +374,10 @@ BL_API_IMPL BLResult bl_path_shrink(BLPathCore* self) noexcept {
     BL_PROPAGATE(realloc_path(self, fitting_impl_size));
 
   // Update path info as this this path may be kept alive for some time.
+  // The result is ignored, invalid geometry doesn't mean that the path wasn't shrunk.
   uint32_t dummy_flags;
-  return bl_path_get_info_flags(self, &dummy_flags);
+  (void)bl_path_get_info_flags(self, &dummy_flags);
+  return BL_SUCCESS;
 }
 
 BL_API_IMPL BLResult bl_path_reserve(BLPathCore* self, size_t n) noexcept {
-- 
2.43.0


From c21cc498a1c9d506ff9d9e8feb8f602bc94fcb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 069/178] fix: hit testing a path that has conics always failed

---
 blend2d/core/path.cpp | 72 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 22bc930..0cd0691 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2482,6 +2482,66 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
 // bl::Path - API - Hit Test
 // =========================
 
+namespace bl {
+namespace PathInternal {
+
+// Returns X coordinate of a point on conic at `u : v`, which are homogeneous coordinates of `t` (`t = u / (u + v)`).
+static BL_INLINE double conic_x_at(const BLPoint* p, double w, double u, double v) noexcept {
+  double uu = u * u;
+  double uv = u * v * w * 2.0;
+  double vv = v * v;
+
+  return (p[0].x * vv + p[1].x * uv + p[3].x * uu) / (vv + uv + uu);
+}
+
+// Calculates a winding number that a conic contributes to a horizontal ray that starts at `pt`.
+static intptr_t conic_winding_number(const BLPoint* p, const BLPoint& pt) noexcept {
+  // Solves `y0 * (1-t)^2 + 2 * y1 * t * (1-t) + y2 * t^2 = 0`.
+  double w = p[2].x;
+  double y0 = p[0].y - pt.y;
+  double y1 = (p[1].y - pt.y) * w;
+  double y2 = p[3].y - pt.y;
+
+  bool start_above = y0 <= 0.0;
+  bool end_above = y2 <= 0.0;
+
+  double d = y1 * y1 - y0 * y2;
+  double q = -(y1 + copysign(Math::sqrt(bl_max(d, 0.0)), y1));
+
+  // Both `q : y2` and `y0 : q` are roots in homogeneous coordinates.
+  if (start_above != end_above) {
+    // There is always a single crossing.
+    double u = q;
+    double v = y2;
+
+    if (!(u * v > 0.0)) {
+      bool use_second = y0 * q > 0.0 || u * v < 0.0 || (u == 0.0 && v == 0.0);
+      if (use_second) {
+        u = y0;
+        v = q;
+      }
+    }
+
+    double ix = conic_x_at(p, w, u, v);
+    return pt.x >= ix ? (start_above ? 1 : -1) : 0;
+  }
+
+  // Otherwise there are either two crossings or none.
+  if ((start_above ? y1 > 0.0 : y1 < 0.0) && d > 0.0) {
+    double ix0 = conic_x_at(p, w, y0, q);
+    double ix1 = conic_x_at(p, w, q, y2);
+    intptr_t n = intptr_t(pt.x >= ix0) - intptr_t(pt.x >= ix1);
+
+    // The root `y0 : q` always precedes `q : y2`.
+    return start_above ? n : -n;
+  }
+
+  return 0;
+}
+
+} // {PathInternal}
+} // {bl}
+
 BL_API_IMPL BLHitTest bl_path_hit_test(const BLPathCore* self, const BLPoint* p_, BLFillRule fill_rule) noexcept {
   using namespace bl::PathInternal;
   BL_ASSERT(self->_d.is_path());
@@ -2632,6 +2692,18 @@ OnLine:
         break;
       }
 
+      case BL_PATH_CMD_CONIC: {
+        if (BL_UNLIKELY(!has_move_to || i < 3))
+          return BL_HIT_TEST_INVALID;
+
+        winding_number += conic_winding_number(vtx_data - 1, pt);
+
+        cmd_data += 3;
+        vtx_data += 3;
+        i -= 3;
+        break;
+      }
+
       case BL_PATH_CMD_CUBIC: {
         if (BL_UNLIKELY(!has_move_to || i < 3))
           return BL_HIT_TEST_INVALID;
-- 
2.43.0


From 0e5e451dbfd7f5ddf40ac8e9e2d4f326b7ee2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 070/178] fix: hit testing close to Y extrema of quadratics and
 cubics used the wrong end point

---
 blend2d/core/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 0cd0691..63d5339 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2677,11 +2677,11 @@ OnLine:
               if (bl::Math::quad_roots(ti, qc.a.y, qc.b.y, qc.c.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = (qc.a.x * ti[0] + qc.b.x) * ti[0] + qc.c.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
-                ix = p[0].x;
+              else if ((pt.y - min_y < max_y - pt.y) == (dir > 0)) {
+                ix = spline_ptr[0].x;
               }
               else {
-                ix = p[2].x;
+                ix = spline_ptr[2].x;
               }
 
               if (pt.x >= ix)
@@ -2758,7 +2758,7 @@ OnLine:
               if (bl::Math::cubic_roots(ti, cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = ((cc.a.x * ti[0] + cc.b.x) * ti[0] + cc.c.x) * ti[0] + cc.d.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
+              else if ((pt.y - min_y < max_y - pt.y) == (dir > 0)) {
                 ix = spline_ptr[0].x;
               }
               else {
-- 
2.43.0


From 0bbf81e4045b0de0d681e2e71e7c056a1db23c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 071/178] fix: hit testing cubics that have a negligible cubic
 term was imprecise

---
 blend2d/core/path.cpp | 47 +++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 63d5339..5b9fb5c 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2494,6 +2494,38 @@ static BL_INLINE double conic_x_at(const BLPoint* p, double w, double u, double
   return (p[0].x * vv + p[1].x * uv + p[3].x * uu) / (vv + uv + uu);
 }
 
+// Solves `At^3 + Bt^2 + Ct + D == 0` in `[0, 1]`, where the polynomial is known to be monotonic.
+//
+// NOTE: An analytic solution is not an option here as it's not precise when the cubic term is small compared to
+// others, which is a common case when a cubic is split at its extrema.
+static double monotone_cubic_root(double a, double b, double c, double d, bool increasing) noexcept {
+  double t_min = 0.0;
+  double t_max = 1.0;
+  double t = 0.5;
+
+  for (uint32_t i = 0; i < 64; i++) {
+    double f = ((a * t + b) * t + c) * t + d;
+    if (f == 0.0)
+      break;
+
+    if ((f < 0.0) == increasing)
+      t_min = t;
+    else
+      t_max = t;
+
+    // Newton's method, falls back to bisection if it would leave the interval that contains the root.
+    double t_next = t - f / ((3.0 * a * t + 2.0 * b) * t + c);
+    if (!(t_next > t_min && t_next < t_max))
+      t_next = (t_min + t_max) * 0.5;
+
+    if (bl_abs(t_next - t) <= Math::epsilon<double>())
+      return t_next;
+    t = t_next;
+  }
+
+  return t;
+}
+
 // Calculates a winding number that a conic contributes to a horizontal ray that starts at `pt`.
 static intptr_t conic_winding_number(const BLPoint* p, const BLPoint& pt) noexcept {
   // Solves `y0 * (1-t)^2 + 2 * y1 * t * (1-t) + y2 * t^2 = 0`.
@@ -2748,22 +2780,11 @@ OnLine:
               else if (spline_ptr[0].y > spline_ptr[3].y)
                 dir = -1;
 
-              // It should be only possible to have zero or one solution.
-              double ti[3];
-              double ix;
-
               bl::Geometry::CubicCoefficients cc = bl::Geometry::coefficients_of(bl::Geometry::cubic_ref(spline_ptr));
+              double t = monotone_cubic_root(cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, dir > 0);
 
               // { At^3 + Bt^2 + Ct + D } -> { ((At + B)t + C)t + D }
-              if (bl::Math::cubic_roots(ti, cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
-                ix = ((cc.a.x * ti[0] + cc.b.x) * ti[0] + cc.c.x) * ti[0] + cc.d.x;
-              }
-              else if ((pt.y - min_y < max_y - pt.y) == (dir > 0)) {
-                ix = spline_ptr[0].x;
-              }
-              else {
-                ix = spline_ptr[3].x;
-              }
+              double ix = ((cc.a.x * t + cc.b.x) * t + cc.c.x) * t + cc.d.x;
 
               if (pt.x >= ix) {
                 winding_number += dir;
-- 
2.43.0


From ed19e35b6b659b91364be418f00fc72ddd4ff940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 072/178] fix: miter-clip joins of segments that go back had a
 random size

---
 blend2d/core/pathstroke.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 5e0c502..6c53b6f 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -777,13 +777,8 @@ SmoothPolyTo:
     }
 
     if (_join_type == BL_STROKE_JOIN_MITER_CLIP) {
-      double b2 = bl_abs(Geometry::cross(k, _n0));
-
-      // Avoid degenerate cases and NaN.
-      if (b2 > 0)
-        b2 = b2 * _miter_limit / Geometry::magnitude(k);
-      else
-        b2 = _miter_limit;
+      // Sine of half the turning angle - calculated from normals as `k` is not usable when segments are anti-parallel.
+      double b2 = Geometry::magnitude(n1 - _n0) * 0.5 * _miter_limit;
 
       appender.back(appender.cmd[-2].value <= BL_PATH_CMD_ON);
       appender.line_to(_p0 + d * _n0 - b2 * Geometry::normal(_n0));
-- 
2.43.0


From daaab4864cf4ccfb222ce25849fd2506ec7c1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 073/178] fix: stroking a path that has conics always failed

---
 blend2d/core/pathstroke.cpp | 182 +++++++++++++++++++++++++++---------
 1 file changed, 138 insertions(+), 44 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 6c53b6f..00f245c 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -314,51 +314,16 @@ SmoothPolyTo:
           if (BL_UNLIKELY(_iter.after_end()))
             return BL_ERROR_INVALID_GEOMETRY;
 
-          const BLPoint* quad = _iter.vtx - 3;
-          BLPoint p2 = quad[2];
-          BLPoint v2 = p2 - p1;
-
-          v1 = p1 - _p0;
-          n1 = Geometry::normal(Geometry::unit_vector(v1));
-
-          double cm = Geometry::cross(v2, v1);
-          if (bl_abs(cm) <= kStrokeCollinearityEpsilon) {
-            // All points are [almost] collinear (degenerate case).
-            double dot = Geometry::dot(-v1, v2);
-
-            // Check if control point lies outside of the start/end points.
-            if (dot > 0.0) {
-              // Rotate all points to x-axis.
-              double r1 = Geometry::dot(p1 - _p0, v1);
-              double r2 = Geometry::dot(p2 - _p0, v1);
-
-              // Parameter of the cusp if it's within (0, 1).
-              double t = r1 / (2.0 * r1 - r2);
-              if (t > 0.0 && t < 1.0) {
-                poly_pts[0] = Geometry::evaluate(Geometry::quad_ref(quad), t);
-                poly_pts[1] = p2;
-                poly_size = 2;
-                goto SmoothPolyTo;
-              }
-            }
-
-            // Collinear without cusp => straight line.
-            p1 = p2;
-            goto LineTo;
-          }
-
-          // Very small curve segment => straight line.
-          if (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq || Geometry::magnitude_squared(v2) < kStrokeLengthEpsilonSq) {
-            p1 = p2;
-            goto LineTo;
-          }
-
-          if (!is_open())
-            BL_PROPAGATE(open_curve(n1));
-          else
-            BL_PROPAGATE(join_curve(n1));
+          const BLPoint quad[3] = { _p0, _iter.vtx[-2], _iter.vtx[-1] };
+          BL_PROPAGATE(stroke_quad_to(quad));
+        }
+        else if (cmd == BL_PATH_CMD_CONIC) {
+          // Conic curve segment (the second vertex stores its weight).
+          _iter += 3;
+          if (BL_UNLIKELY(_iter.after_end()))
+            return BL_ERROR_INVALID_GEOMETRY;
 
-          BL_PROPAGATE(offset_quad(_iter.vtx - 3));
+          BL_PROPAGATE(stroke_conic_to(_iter.vtx[-3], _iter.vtx[-1], _iter.vtx[-2].x));
         }
         else if (cmd == BL_PATH_CMD_CUBIC) {
           // Cubic curve segment.
@@ -597,6 +562,135 @@ SmoothPolyTo:
     return BL_SUCCESS;
   }
 
+  // Strokes a line from `_p0` to `p1` - zero length lines are ignored.
+  BL_NOINLINE BLResult stroke_line_to(const BLPoint& p1) noexcept {
+    BLPoint v1 = p1 - _p0;
+    if (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq)
+      return BL_SUCCESS;
+
+    BL_PROPAGATE(ensure_appenders_capacity(kStrokeMaxJoinVertices, kStrokeMaxJoinVertices));
+    BLPoint n1 = Geometry::normal(Geometry::unit_vector(v1));
+
+    if (!is_open())
+      return open_line_to(p1, n1);
+    else
+      return join_line_to(p1, n1);
+  }
+
+  // Strokes a quadratic curve, which starts at `_p0`.
+  BL_NOINLINE BLResult stroke_quad_to(const BLPoint quad[3]) noexcept {
+    BLPoint v1 = quad[1] - quad[0];
+    BLPoint v2 = quad[2] - quad[1];
+    double cm = Geometry::cross(v2, v1);
+
+    if (bl_abs(cm) <= kStrokeCollinearityEpsilon) {
+      // All points are [almost] collinear (degenerate case).
+      double dot = Geometry::dot(-v1, v2);
+
+      // Check if control point lies outside of the start/end points.
+      if (dot > 0.0) {
+        // Rotate all points to x-axis.
+        double r1 = Geometry::dot(v1, v1);
+        double r2 = Geometry::dot(quad[2] - quad[0], v1);
+
+        // Parameter of the cusp if it's within (0, 1).
+        double t = r1 / (2.0 * r1 - r2);
+        if (t > 0.0 && t < 1.0) {
+          BLPoint poly_pts[2] = { Geometry::evaluate(Geometry::quad_ref(quad), t), quad[2] };
+          return smooth_poly_to(poly_pts, 2);
+        }
+      }
+
+      // Collinear without cusp => straight line.
+      return stroke_line_to(quad[2]);
+    }
+
+    // Very small curve segment => straight line.
+    if (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq || Geometry::magnitude_squared(v2) < kStrokeLengthEpsilonSq)
+      return stroke_line_to(quad[2]);
+
+    BL_PROPAGATE(ensure_appenders_capacity(kStrokeMaxJoinVertices, kStrokeMaxJoinVertices));
+    BLPoint n1 = Geometry::normal(Geometry::unit_vector(v1));
+
+    if (!is_open())
+      BL_PROPAGATE(open_curve(n1));
+    else
+      BL_PROPAGATE(join_curve(n1));
+
+    return offset_quad(quad);
+  }
+
+  // Strokes a conic curve, which starts at `_p0` - the conic is approximated by quadratic curves first.
+  BL_NOINLINE BLResult stroke_conic_to(const BLPoint& p1, const BLPoint& p2, double w) noexcept {
+    constexpr size_t kMaxLevel = 6;
+
+    BLPoint quads[(size_t(2) << kMaxLevel) + 1];
+    BLPoint p0 = _p0;
+
+    // Conics that have zero (or invalid) weight are straight lines.
+    if (!(w > 0.0 && w <= Traits::max_value<double>()))
+      return stroke_line_to(p2);
+
+    // The maximum distance between the conic and a quadratic curve that shares its control points, which becomes
+    // (at least) 4 times smaller each time the conic is split in half.
+    double error = Geometry::magnitude((p0 - p1 * 2.0 + p2) * ((w - 1.0) / (4.0 * (1.0 + w))));
+    size_t level = 1;
+
+    while (level < kMaxLevel && error > _approx.simplify_tolerance) {
+      error *= 0.25;
+      level++;
+    }
+
+    size_t count = size_t(1) << level;
+    quads[0] = p0;
+    quads[count * 2u - 1u] = p1;
+    quads[count * 2u] = p2;
+
+    for (size_t step = count; step > 1; step >>= 1) {
+      for (size_t i = 0; i < count; i += step) {
+        BLPoint* q = quads + i * 2u;
+        BLPoint q0 = q[0];
+        BLPoint q1 = q[step * 2u - 1u];
+        BLPoint q2 = q[step * 2u];
+
+        BLPoint c0 = (q0 + q1 * w) / (1.0 + w);
+        BLPoint c1 = (q1 * w + q2) / (1.0 + w);
+
+        q[step] = (c0 + c1) * 0.5;
+        q[step - 1u] = c0;
+        q[step * 2u - 1u] = c1;
+      }
+      w = Math::sqrt(0.5 + w * 0.5);
+    }
+
+    BLPoint v1 = p1 - p0;
+    BLPoint v2 = p2 - p1;
+
+    if (bl_abs(Geometry::cross(v2, v1)) <= kStrokeCollinearityEpsilon ||
+        Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq ||
+        Geometry::magnitude_squared(v2) < kStrokeLengthEpsilonSq) {
+      // Degenerate case.
+      for (size_t i = 0; i < count; i++) {
+        const BLPoint quad[3] = { _p0, quads[i * 2u + 1u], quads[i * 2u + 2u] };
+        BL_PROPAGATE(stroke_quad_to(quad));
+      }
+      return BL_SUCCESS;
+    }
+
+    BL_PROPAGATE(ensure_appenders_capacity(kStrokeMaxJoinVertices, kStrokeMaxJoinVertices));
+    BLPoint n1 = Geometry::normal(Geometry::unit_vector(v1));
+
+    if (!is_open())
+      BL_PROPAGATE(open_curve(n1));
+    else
+      BL_PROPAGATE(join_curve(n1));
+
+    for (size_t i = 0; i < count; i++)
+      BL_PROPAGATE(offset_quad(quads + i * 2u));
+
+    return BL_SUCCESS;
+  }
+
   // Opens a new figure at the current point `_p0`. The first vertex (MOVE) is calculated by offsetting `_p0`
   // by the given unit normal `n0`.
   //
-- 
2.43.0


From 552aa3a20d8b7ebd1720cae63e529501c092d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:39 +0000
Subject: [PATCH 074/178] fix: curves that go back close to their start were
 not stroked

---
 blend2d/core/pathstroke.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 00f245c..0acfd67 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -759,10 +759,16 @@ SmoothPolyTo:
   BL_INLINE_IF_NOT_DEBUG BLResult smooth_poly_to(const BLPoint* poly, size_t count) noexcept {
     BL_ASSERT(count >= 2);
 
+    // Skip points that would only add zero length lines.
     BLPoint p1 = poly[0];
     BLPoint v1 = p1 - _p0;
-    if (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq)
-      return BL_SUCCESS;
+    while (Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq) {
+      if (--count == 0)
+        return BL_SUCCESS;
+
+      p1 = *++poly;
+      v1 = p1 - _p0;
+    }
 
     BLPoint n1 = Geometry::normal(Geometry::unit_vector(v1));
     if (!is_open())
-- 
2.43.0


From 2c284c632e5b3f487492f09c3a04ef2ab6219dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 075/178] fix: collinear cubics and conics that turn back lost
 the part behind their end point

---
 blend2d/core/pathstroke.cpp | 58 +++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/blend2d/core/pathstroke.cpp b/blend2d/core/pathstroke.cpp
index 0acfd67..ce2f11a 100644
--- a/blend2d/core/pathstroke.cpp
+++ b/blend2d/core/pathstroke.cpp
@@ -354,21 +354,21 @@ SmoothPolyTo:
               double r2 = Geometry::dot(p[2] - p[0], r);
               double r3 = Geometry::dot(p[3] - p[0], r);
 
-              double a = 1.0 / (3.0 * r1 - 3.0 * r2 + r3);
-              double b = 2.0 * r1 - r2;
-              double s = Math::sqrt(r2 * (r2 - r1) - r1 * (r3 - r1));
+              // Parameters of the cusps are roots of the derivative, which doesn't have to be quadratic.
+              double a = 3.0 * (r1 - r2) + r3;
+              double b = 2.0 * (r2 - 2.0 * r1);
+              double c = r1;
 
-              // Parameters of the cusps.
-              double t1 = a * (b - s);
-              double t2 = a * (b + s);
+              double ts[2];
+              size_t tn = 0;
+
+              if (b * b - 4.0 * a * c > 0.0)
+                tn = Math::quad_roots(ts, a, b, c, kStrokeCuspTThreshold, 1.0 - kStrokeCuspTThreshold);
 
               // Offset the first and second cusps (if they exist).
               poly_size = 0;
-              if (t1 > kStrokeCuspTThreshold && t1 < 1.0 - kStrokeCuspTThreshold)
-                poly_pts[poly_size++] = Geometry::evaluate(Geometry::cubic_ref(p), t1);
-
-              if (t2 > kStrokeCuspTThreshold && t2 < 1.0 - kStrokeCuspTThreshold)
-                poly_pts[poly_size++] = Geometry::evaluate(Geometry::cubic_ref(p), t2);
+              for (size_t i = 0; i < tn; i++)
+                poly_pts[poly_size++] = Geometry::evaluate(Geometry::cubic_ref(p), ts[i]);
 
               if (poly_size == 0) {
                 p1 = p[3];
@@ -631,6 +631,28 @@ SmoothPolyTo:
     if (!(w > 0.0 && w <= Traits::max_value<double>()))
       return stroke_line_to(p2);
 
+    BLPoint v1 = p1 - p0;
+    BLPoint v2 = p2 - p1;
+
+    if (bl_abs(Geometry::cross(v2, v1)) <= kStrokeCollinearityEpsilon ||
+        Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq ||
+        Geometry::magnitude_squared(v2) < kStrokeLengthEpsilonSq) {
+      // All points are [almost] collinear (degenerate case).
+      double r1 = Geometry::dot(v1, v1);
+      double r2 = Geometry::dot(p2 - p0, v1);
+
+      // Parameter of the cusp if it's within (0, 1).
+      double ts[2];
+      if (r2 < r1 && Math::quad_roots(ts, (w - 1.0) * r2, r2 - 2.0 * w * r1, w * r1, kStrokeCuspTThreshold, 1.0 - kStrokeCuspTThreshold)) {
+        double t = ts[0];
+        double s = 2.0 * t * (1.0 - t);
+        BLPoint poly_pts[2] = { p0 + (v1 * (s * w) + (p2 - p0) * (t * t)) / (1.0 + (w - 1.0) * s), p2 };
+        return smooth_poly_to(poly_pts, 2);
+      }
+
+      return stroke_line_to(p2);
+    }
+
     // The maximum distance between the conic and a quadratic curve that shares its control points, which becomes
     // (at least) 4 times smaller each time the conic is split in half.
     double error = Geometry::magnitude((p0 - p1 * 2.0 + p2) * ((w - 1.0) / (4.0 * (1.0 + w))));
@@ -663,20 +685,6 @@ SmoothPolyTo:
       w = Math::sqrt(0.5 + w * 0.5);
     }
 
-    BLPoint v1 = p1 - p0;
-    BLPoint v2 = p2 - p1;
-
-    if (bl_abs(Geometry::cross(v2, v1)) <= kStrokeCollinearityEpsilon ||
-        Geometry::magnitude_squared(v1) < kStrokeLengthEpsilonSq ||
-        Geometry::magnitude_squared(v2) < kStrokeLengthEpsilonSq) {
-      // Degenerate case.
-      for (size_t i = 0; i < count; i++) {
-        const BLPoint quad[3] = { _p0, quads[i * 2u + 1u], quads[i * 2u + 2u] };
-        BL_PROPAGATE(stroke_quad_to(quad));
-      }
-      return BL_SUCCESS;
-    }
-
     BL_PROPAGATE(ensure_appenders_capacity(kStrokeMaxJoinVertices, kStrokeMaxJoinVertices));
     BLPoint n1 = Geometry::normal(Geometry::unit_vector(v1));
 
-- 
2.43.0


From 5b1ed10e1b62f4c95450b230c8471a659377f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 076/178] fix: offsets of quadratic curves were imprecise when
 their derivative coefficients are perpendicular

---
 blend2d/geometry/bezier_p.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/blend2d/geometry/bezier_p.h b/blend2d/geometry/bezier_p.h
index 03711bc..fbebdae 100644
--- a/blend2d/geometry/bezier_p.h
+++ b/blend2d/geometry/bezier_p.h
@@ -240,10 +240,7 @@ static BL_INLINE double quad_parameter_at_angle(QuadRef curve, double m) noexcep
   double aob = dot(dc.a, dc.b);
   double axb = cross(dc.a, dc.b);
 
-  if (aob == 0.0) {
-    return 1.0;
-  }
-
+  // NOTE: The result can be infinity or NaN if the curve is a line, the caller must check the range.
   // m * (bx * bx + by * by) / (|ax * by - ay * bx| - m * (ax * bx + ay * by));
   return m * magnitude_squared(dc.b) / (bl_abs(axb) - m * aob);
 }
-- 
2.43.0


From ae2e334ca39b81e7590536c8c8fe83c31f9a9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 077/178] fix: sanitizing byte-swapped formats moved components
 smaller than a byte to a wrong position

---
 blend2d/core/format.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/format.cpp b/blend2d/core/format.cpp
index 21d4957..49ff10d 100644
--- a/blend2d/core/format.cpp
+++ b/blend2d/core/format.cpp
@@ -196,7 +196,9 @@ BL_API_IMPL BLResult bl_format_info_sanitize(BLFormatInfo* self) noexcept {
         uint32_t size = f.sizes[i];
         if (!size)
           continue;
-        f.shifts[i] = uint8_t(f.depth - f.shifts[i] - size);
+        // Only the order of bytes is reversed, the position of the component within its byte(s) doesn't change.
+        uint32_t shift = f.shifts[i];
+        f.shifts[i] = uint8_t((f.depth - 8u - (shift & ~0x7u)) | (shift & 0x7u));
       }
 
       flags &= ~FormatFlagsExt::kByteSwap;
-- 
2.43.0


From 2a7fe1d7e3f55e3665d3bdbaf17918965e2f677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 078/178] fix: multi-step pixel converters had no second step

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 3335efa..b59e3a1 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2204,7 +2204,7 @@ static BLResult bl_pixel_converter_init_multi_step_internal(BLPixelConverterCore
 
   memset(ctx, 0, sizeof(*ctx));
   if ((result = bl_pixel_converter_init_internal(&ctx->first, intermediate, si, custom_flags)) != BL_SUCCESS ||
-      (result = bl_pixel_converter_init_internal(&ctx->first, di, intermediate, custom_flags)) != BL_SUCCESS) {
+      (result = bl_pixel_converter_init_internal(&ctx->second, di, intermediate, custom_flags)) != BL_SUCCESS) {
     bl_pixel_converter_reset(&ctx->first);
     bl_pixel_converter_reset(&ctx->second);
     free(ctx);
-- 
2.43.0


From 066678df7886f950621f7bc282ec101c55c0f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 079/178] fix: converters between 8888 and other formats
 ignored alpha of the destination or source

---
 blend2d/core/pixelconverter.cpp | 81 ++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index b59e3a1..9a3b787 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -988,6 +988,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1008,7 +1010,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32a(dst_data, ag + rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1033,7 +1035,7 @@ static BLResult BL_CDECL bl_convert_prgb32_from_argb_any(
         ag = (ag + ((ag >> 8) & 0x00FF00FFu)) & 0xFF00FF00u;
 
         rb >>= 8;
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1077,6 +1079,8 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
   uint32_t b_scale = d.scale[2];
   uint32_t a_scale = d.scale[3];
 
+  uint32_t fill_mask = d.fill_mask;
+
   for (uint32_t y = h; y != 0; y--) {
     if (!AlwaysUnaligned && bl::IntOps::is_aligned(dst_data, 4) && bl::IntOps::is_aligned(src_data, PixelAccess::kSize)) {
       for (uint32_t i = w; i != 0; i--) {
@@ -1086,10 +1090,10 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t b = ((pix >> b_shift) & b_mask) * b_scale;
         uint32_t a = ((pix >> a_shift) & a_mask) * a_scale;
 
-        uint32_t ag = (a + (g     )) & 0xFF00FF00u;
-        uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
+        uint32_t ag = (a & 0xFF000000u) | (g & 0x0000FF00u);
+        uint32_t rb = (r & 0x00FF0000u) | (b >> 8);
 
-        bl::MemOps::writeU32a(dst_data, ag | rb);
+        bl::MemOps::writeU32a(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1103,10 +1107,10 @@ static BLResult BL_CDECL bl_convert_prgb32_from_prgb_any(
         uint32_t b = ((pix >> b_shift) & b_mask) * b_scale;
         uint32_t a = ((pix >> a_shift) & a_mask) * a_scale;
 
-        uint32_t ag = (a + (g     )) & 0xFF00FF00u;
-        uint32_t rb = (r + (b >> 8)) & 0x00FF00FFu;
+        uint32_t ag = (a & 0xFF000000u) | (g & 0x0000FF00u);
+        uint32_t rb = (r & 0x00FF0000u) | (b >> 8);
 
-        bl::MemOps::writeU32u(dst_data, ag | rb);
+        bl::MemOps::writeU32u(dst_data, ag | rb | fill_mask);
 
         dst_data += 4;
         src_data += PixelAccess::kSize;
@@ -1933,12 +1937,19 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
 
   BLPixelConverterData::NativeFromForeign& d = bl_pixel_converter_get_data(self)->native_from_foreign;
 
-  bool isSrcRGBA           = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+  bool is_src_rgba           = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
   bool is_src_premultiplied  = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+  bool is_dst_rgba           = (di.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+  bool is_dst_premultiplied  = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
   bool hasSrcHostBO        = (si.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
-  if (!isSrcRGBA)
-    d.fill_mask = 0xFF000000u;
+  // Unpremultiplied destination requires premultiplied source to be unpremultiplied, but doesn't change components of
+  // a source that is not premultiplied.
+  bool is_dst_unpremultiplied = is_dst_rgba && !is_dst_premultiplied;
+  bool unpremultiply = is_src_rgba && is_src_premultiplied && is_dst_unpremultiplied;
+  bool copy_components = is_src_rgba && is_src_premultiplied != is_dst_unpremultiplied;
+
+  d.fill_mask = is_src_rgba && is_dst_rgba ? 0u : 0xFF000000u;
 
   for (uint32_t i = 0; i < 4; i++) {
     uint32_t size = si.sizes[i];
@@ -1985,11 +1996,13 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
   BLPixelConverterFunc func = nullptr;
   switch (si.depth) {
     case 16:
-      // TODO:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
+      else if (copy_components)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
-      else if (isSrcRGBA)
+      else if (is_src_rgba)
         func = hasSrcHostBO ? bl_convert_prgb32_from_argb_any<BLPixelAccess16<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem16>
                             : bl_convert_prgb32_from_argb_any<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
       else
@@ -1998,10 +2011,13 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 24:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
+      else if (copy_components)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
-      else if (isSrcRGBA)
+      else if (is_src_rgba)
         func = hasSrcHostBO ? bl_convert_prgb32_from_argb_any<BLPixelAccess24<BL_BYTE_ORDER_NATIVE >, true>
                             : bl_convert_prgb32_from_argb_any<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
       else
@@ -2010,10 +2026,13 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
       break;
 
     case 32:
-      if (is_src_premultiplied)
+      if (unpremultiply)
+        func = hasSrcHostBO ? bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
+                            : bl_convert_argb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
+      else if (copy_components)
         func = hasSrcHostBO ? bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
                             : bl_convert_prgb32_from_prgb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
-      else if (isSrcRGBA)
+      else if (is_src_rgba)
         func = hasSrcHostBO ? bl_convert_prgb32_from_argb_any<BLPixelAccess32<BL_BYTE_ORDER_NATIVE >, bl::MemOps::kUnalignedMem32>
                             : bl_convert_prgb32_from_argb_any<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
       else
@@ -2032,7 +2051,7 @@ static BLResult bl_pixel_converter_init_8888_from_foreign(BLPixelConverterCore*
 // =============================================
 
 static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si, BLPixelConverterCreateFlags create_flags) noexcept {
-  bl_unused(si, create_flags);
+  bl_unused(create_flags);
 
   BL_ASSERT(si.depth == 32);
   BL_ASSERT(si.flags & BL_FORMAT_FLAG_BYTE_ALIGNED);
@@ -2047,10 +2066,18 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
   else {
     BLPixelConverterData::ForeignFromNative& d = bl_pixel_converter_get_data(self)->foreign_from_native;
 
-    bool isDstRGBA          = (di.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+    bool is_src_rgba          = (si.flags & BL_FORMAT_FLAG_ALPHA) != 0;
+    bool is_src_premultiplied = (si.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
+    bool is_dst_rgba          = (di.flags & BL_FORMAT_FLAG_ALPHA) != 0;
     bool is_dst_premultiplied = (di.flags & BL_FORMAT_FLAG_PREMULTIPLIED) != 0;
     bool hasDstHostBO       = (di.flags & BL_FORMAT_FLAG_BYTE_SWAP) == 0;
 
+    // Source pixels that have to be premultiplied or that don't have a defined alpha require an intermediate format.
+    if (is_src_rgba ? !is_src_premultiplied && (!is_dst_rgba || is_dst_premultiplied) : is_dst_rgba)
+      return BL_RESULT_NOTHING;
+
+    bool copy_components = is_dst_rgba && is_src_premultiplied == is_dst_premultiplied;
+
     for (uint32_t i = 0; i < 4; i++) {
       uint32_t mask = 0;
       uint32_t size = di.sizes[i];
@@ -2068,10 +2095,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
     BLPixelConverterFunc func = nullptr;
     switch (di.depth) {
       case 16:
-        if (is_dst_premultiplied)
+        if (copy_components)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
-        else if (isDstRGBA)
+        else if (is_dst_rgba)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem16>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess16<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem16>;
         else
@@ -2080,10 +2107,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 24:
-        if (is_dst_premultiplied)
+        if (copy_components)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
-        else if (isDstRGBA)
+        else if (is_dst_rgba)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_NATIVE>, true>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess24<BL_BYTE_ORDER_SWAPPED>, true>;
         else
@@ -2092,10 +2119,10 @@ static BLResult bl_pixel_converter_init_foreign_from_8888(BLPixelConverterCore*
         break;
 
       case 32:
-        if (is_dst_premultiplied)
+        if (copy_components)
           func = hasDstHostBO ? bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_prgb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
-        else if (isDstRGBA)
+        else if (is_dst_rgba)
           func = hasDstHostBO ? bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_NATIVE>, bl::MemOps::kUnalignedMem32>
                               : bl_convert_argb_any_from_prgb32<BLPixelAccess32<BL_BYTE_ORDER_SWAPPED>, bl::MemOps::kUnalignedMem32>;
         else
@@ -2242,7 +2269,7 @@ static BLResult bl_pixel_converter_init_multi_step(BLPixelConverterCore* self, c
     BLFormatInfo intermediate = bl_format_info[BL_FORMAT_PRGB32];
     if ((di.flags & (kA | kP)) == kA)
       intermediate.clear_flags(BL_FORMAT_FLAG_PREMULTIPLIED);
-    if (!(di.flags & kA) || !(si.flags & kA))
+    if (!(di.flags & kA))
       intermediate = bl_format_info[BL_FORMAT_XRGB32];
     return bl_pixel_converter_init_multi_step_internal(self, di, intermediate, si);
   }
-- 
2.43.0


From 677a4c6a83ff101cb101f6288841172730a1aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 080/178] fix: copying byte-swapped 32-bit pixels overwrote
 components when filling undefined bits

---
 blend2d/core/pixelconverter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 9a3b787..7fa45cc 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1631,6 +1631,10 @@ static BLResult bl_pixel_converter_init_copy_8888_with_fill_mask(BLPixelConverte
       d.fill_mask = 0xFFu << di.shifts[3];
     else
       d.fill_mask = bl_pixel_converter_calc_fill_mask32(di);
+
+    // Pixels are not swapped when they are copied.
+    if (di.flags & BL_FORMAT_FLAG_BYTE_SWAP)
+      d.fill_mask = bl::IntOps::byte_swap(d.fill_mask);
   }
 
 #ifdef BL_BUILD_OPT_AVX2
-- 
2.43.0


From 70b506d5c21b8f6d30c4771866c83dbc4e876dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 081/178] fix: converting a palette used uninitialized
 fill-mask and could write into a palette that is not alterable

---
 blend2d/core/pixelconverter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 7fa45cc..08c999b 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1525,7 +1525,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   // We need a temporary pixel converter to convert the palette to the destination pixel format. This operation should
   // not allocate any memory as the converter will convert native pixel format (BLRgba32) into a possibly non-native
   // one although a native pixel format is used most of the time.
-  BLPixelConverterCore pal_cvt;
+  BLPixelConverterCore pal_cvt {};
   BL_PROPAGATE(bl_pixel_converter_init_internal(&pal_cvt, di, palette_format_info, BL_PIXEL_CONVERTER_CREATE_NO_FLAGS));
 
   // If the source depth is 8 bits it means that we either use the source format's palette or make a copy of it
@@ -1554,7 +1554,9 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
     palette = d.embedded.table8;
   }
 
-  pal_cvt.convert_func(&pal_cvt, static_cast<uint8_t*>(palette), 0, reinterpret_cast<const uint8_t*>(si.palette), 0, palette_size, 1, nullptr);
+  // The palette that is used directly only has to be converted if it's altered.
+  if (palette != si.palette || !(pal_cvt.internal_flags & BL_PIXEL_CONVERTER_INTERNAL_FLAG_RAW_COPY))
+    pal_cvt.convert_func(&pal_cvt, static_cast<uint8_t*>(palette), 0, reinterpret_cast<const uint8_t*>(si.palette), 0, palette_size, 1, nullptr);
   bl_pixel_converter_reset(&pal_cvt);
 
   BLPixelConverterFunc func = nullptr;
@@ -1621,7 +1623,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
 static BLResult bl_pixel_converter_init_copy_8888_with_fill_mask(BLPixelConverterCore* self, const BLFormatInfo& di, const BLFormatInfo& si) noexcept {
   BLPixelConverterData::MemCopyData& d = bl_pixel_converter_get_data(self)->mem_copy_data;
 
-  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED | BL_PIXEL_CONVERTER_INTERNAL_FLAG_RAW_COPY ;
+  d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
   d.bytes_per_pixel = uint8_t(di.depth / 8u);
 
   // Required to handle Copy32, XRGB32<-PRGB32, and PRGB32<-XRGB32 conversions.
-- 
2.43.0


From 69e48e86e38802c4f38bbd767d61ccae493721db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 082/178] fix: A8 from indexed pixels without alpha used
 undefined alpha of the palette

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 08c999b..53236a9 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1513,7 +1513,7 @@ static BLResult bl_pixel_converter_init_indexed(BLPixelConverterCore* self, cons
   bool alterable_palette = (create_flags & BL_PIXEL_CONVERTER_CREATE_FLAG_ALTERABLE_PALETTE) != 0;
 
   // Special case - avoid making the copy of the palette for known conversions.
-  if (di.depth == 8 && si.depth == 8 && dont_copy_palette) {
+  if (di.depth == 8 && si.depth == 8 && (si.flags & BL_FORMAT_FLAG_ALPHA) && dont_copy_palette) {
     if ((di.flags & (BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_BYTE_ALIGNED)) == (BL_FORMAT_FLAG_ALPHA | BL_FORMAT_FLAG_BYTE_ALIGNED)) {
       d.convert_func = bl_convert_a8_from_indexed8_pal32;
       d.internal_flags = BL_PIXEL_CONVERTER_INTERNAL_FLAG_INITIALIZED;
-- 
2.43.0


From 90b46ea7b3ad03fccf1c05745d4319f2bf1c75d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 083/178] fix: PNG encoder appended to the destination buffer
 instead of replacing it

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 66cfb7f..0c9d089 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1935,7 +1935,7 @@ static BLResult BL_CDECL encoder_write_frame_impl(BLImageEncoderImpl* impl, BLAr
 
   size_t reserve_bytes = kPngSignatureSize + ihdr_size + idat_size + iend_size;
   uint8_t* output_data;
-  BL_PROPAGATE(buf.modify_op(BL_MODIFY_OP_APPEND_FIT, reserve_bytes, &output_data));
+  BL_PROPAGATE(buf.modify_op(BL_MODIFY_OP_ASSIGN_FIT, reserve_bytes, &output_data));
 
   // Prepare output buffer and chunk writer.
   OutputBuffer output(output_data, reserve_bytes);
-- 
2.43.0


From 5584c34e3395fa040b2f8bd6d93a09b0b720abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 084/178] fix: JPEG codec reported that it can write images,
 but has no encoder

---
 blend2d/codec/jpegcodec.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 9ae5c20..ec6f1d3 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1598,7 +1598,6 @@ void jpeg_codec_on_init(BLRuntimeContext* rt, BLArray<BLImageCodec>* codecs) noe
   jpeg_codec.impl->ctor(&jpeg_codec.virt);
   jpeg_codec.impl->features =
     BL_IMAGE_CODEC_FEATURE_READ  |
-    BL_IMAGE_CODEC_FEATURE_WRITE |
     BL_IMAGE_CODEC_FEATURE_LOSSY ;
   jpeg_codec.impl->name.dcast().assign("JPEG");
   jpeg_codec.impl->vendor.dcast().assign("Blend2D");
-- 
2.43.0


From d91de08864ef8273d47020572157d180f9ae9b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 085/178] fix: DEFLATE decoder kept stale bits when a stored
 block followed a compressed block decoded by the fast loop

---
 blend2d/compression/deflatedecoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/compression/deflatedecoder.cpp b/blend2d/compression/deflatedecoder.cpp
index 26407a7..dab6715 100644
--- a/blend2d/compression/deflatedecoder.cpp
+++ b/blend2d/compression/deflatedecoder.cpp
@@ -1475,6 +1475,10 @@ CopyBytesState: {
           goto NotEnoughInputBytes;
         }
         else {
+          // The BitWord is empty here, however, it can still hold bits that follow `bit_length` if it was refilled by
+          // a fast loop. These bits describe bytes that are going to be copied, so they must not be kept in BitWord.
+          bits.reset();
+
           memcpy(dst_ptr, src_ptr, n);
           dst_ptr += n;
           src_ptr += n;
-- 
2.43.0


From cb2fd43f5af7627caf023248d1bd5199d7d8d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 086/178] fix: PNG decoder computed the size of pixel data in
 32 bits, which could overflow and write out of bounds

---
 blend2d/codec/pngcodec.cpp | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 0c9d089..126dd87 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -135,13 +135,13 @@ static const InterlaceTable interlaceTableAdam7[7] = {
   { 0, 1, 0, 1 }
 };
 
-static uint32_t calculate_interlace_steps(
+static uint64_t calculate_interlace_steps(
   InterlaceStep* dst, const InterlaceTable* table, uint32_t step_count,
   uint32_t sample_depth, uint32_t sample_count,
   uint32_t w, uint32_t h) noexcept {
 
   // Byte-offset of each chunk.
-  uint32_t offset = 0;
+  uint64_t offset = 0;
 
   for (uint32_t i = 0; i < step_count; i++, dst++) {
     const InterlaceTable& tab = table[i];
@@ -155,27 +155,25 @@ static uint32_t calculate_interlace_steps(
     // five rows, some passes will be empty, decoders must handle this case.
     uint32_t used = sw != 0 && sh != 0;
 
-    // NOTE: No need to check for overflow at this point as we have already
-    // calculated the total BPL of the whole image, and since interlacing is
-    // splitting it into multiple images, it can't overflow the base size.
+    // NOTE: BPL cannot overflow as the size of the image was already verified, however, the size of the whole step
+    // and offsets can exceed 32 bits.
     uint32_t bpl = ((sw * sample_depth + 7) / 8) * sample_count + 1;
-    uint32_t size = used ? bpl * sh : uint32_t(0);
+    uint64_t size = used ? uint64_t(bpl) * uint64_t(sh) : uint64_t(0);
 
     dst->used = used;
     dst->width = sw;
     dst->height = sh;
     dst->bpl = bpl;
 
-    dst->offset = offset;
-    dst->size = size;
-
-    // Here we should be safe...
-    bl::OverflowFlag of{};
-    offset = IntOps::add_overflow(offset, size, &of);
-
-    if (BL_UNLIKELY(of)) {
+    // Would not fit into `dst` members - such image would be too large to decode.
+    if (BL_UNLIKELY(offset + size > uint64_t(0x7FFFFFFFu))) {
       return 0;
     }
+
+    dst->offset = uint32_t(offset);
+    dst->size = uint32_t(size);
+
+    offset += size;
   }
 
   return offset;
@@ -892,6 +890,8 @@ static BLResult decoderReadFCTL(BLPngDecoderImpl* decoder_impl, size_t chunk_off
                   y >= uint32_t(decoder_impl->image_info.size.h) ||
                   w > uint32_t(decoder_impl->image_info.size.w) - x ||
                   h > uint32_t(decoder_impl->image_info.size.h) - y ||
+                  w == 0u ||
+                  h == 0u ||
                   dispose_op > kAPNGDisposeOpMaxValue ||
                   blend_op > kAPNGBlendOpMaxValue)) {
     return bl_make_error(BL_ERROR_INVALID_DATA);
@@ -979,12 +979,12 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
 
   chunk_reader.advance(kPngChunkBaseSize + kPngChunkDataSize_IHDR);
 
-  // Width/Height can't be zero or greater than `2^31 - 1`.
+  // Width/Height can't be zero or greater than the maximum supported size of an image.
   if (BL_UNLIKELY(w == 0 || h == 0)) {
     return bl_make_error(BL_ERROR_INVALID_DATA);
   }
 
-  if (BL_UNLIKELY(w >= 0x80000000u || h >= 0x80000000u)) {
+  if (BL_UNLIKELY(w > BL_RUNTIME_MAX_IMAGE_SIZE || h > BL_RUNTIME_MAX_IMAGE_SIZE)) {
     return bl_make_error(BL_ERROR_IMAGE_TOO_LARGE);
   }
 
@@ -1384,15 +1384,15 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
   uint32_t step_count = progressive ? 7 : 1;
 
   InterlaceStep steps[7];
-  uint32_t png_pixel_data_size = calculate_interlace_steps(steps, progressive ? interlaceTableAdam7 : interlace_table_none, step_count, sample_depth, sample_count, w, h);
+  size_t png_pixel_data_size = size_t(calculate_interlace_steps(steps, progressive ? interlaceTableAdam7 : interlace_table_none, step_count, sample_depth, sample_count, w, h));
 
   if (BL_UNLIKELY(png_pixel_data_size == 0)) {
-    return bl_make_error(BL_ERROR_INVALID_DATA);
+    return bl_make_error(BL_ERROR_IMAGE_TOO_LARGE);
   }
 
   BL_PROPAGATE(decoder_impl->deflate_decoder.init(decoder_impl->deflate_format(), Compression::Deflate::DecoderOptions::kNeverReallocOutputBuffer));
   BL_PROPAGATE(decoder_impl->png_pixel_data.clear());
-  BL_PROPAGATE(decoder_impl->png_pixel_data.reserve(size_t(png_pixel_data_size) + kOutputSizeScratch));
+  BL_PROPAGATE(decoder_impl->png_pixel_data.reserve(png_pixel_data_size + kOutputSizeScratch));
 
   // Read 'IDAT' or 'fdAT' chunks - once the first chunk is found, it's either the only chunk or there are consecutive
   // chunks of the same type. It's not allowed that the chunks are interleaved with chunks of a different chunk tag.
-- 
2.43.0


From a73abc70118196f0a88871ba3438a3c9dfc17c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 087/178] fix: PNG decoder used an uninitialized palette when
 an indexed image had no PLTE chunk

---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 126dd87..49dba42 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1213,6 +1213,11 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     }
   }
 
+  // Indexed images require a palette.
+  if (decoder_impl->color_type == kColorType3_PAL && !decoder_impl->has_flag(DecoderStatusFlags::kRead_PLTE)) {
+    return bl_make_error(BL_ERROR_PNG_INVALID_PLTE);
+  }
+
   // Create a pixel converter capable of converting PNG pixel data to BLImage pixel data.
   BLFormatInfo png_fmt {};
   png_fmt.depth = decoder_impl->sample_depth;
-- 
2.43.0


From b0a52778afeb3619bf2b4e7fcafe2bce40b927fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 088/178] fix: PNG decoder ignored PLTE and tRNS chunks that
 follow fcTL chunk

---
 blend2d/codec/pngcodec.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 49dba42..5f3f99e 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1190,8 +1190,7 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     }
     else if (chunk_tag == BL_MAKE_TAG('I', 'H', 'D', 'R') ||
              chunk_tag == BL_MAKE_TAG('I', 'D', 'A', 'T') ||
-             chunk_tag == BL_MAKE_TAG('I', 'E', 'N', 'D') ||
-             chunk_tag == BL_MAKE_TAG('f', 'c', 'T', 'L')) {
+             chunk_tag == BL_MAKE_TAG('I', 'E', 'N', 'D')) {
       // Stop - these will be read by a different function.
       break;
     }
-- 
2.43.0


From d97b4456249798687e37ae2d274245bceca01574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 089/178] fix: APNG frame following a first frame having
 dispose-previous operation restored pixels from a null buffer

---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 5f3f99e..8d0a9eb 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1367,6 +1367,11 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
   // Handle APNG Frame Window
   // ------------------------
 
+  // There is nothing to restore before the first frame - it must be treated as `kAPNGDisposeOpBackground` in such case.
+  if (decoder_impl->frame_index == 0u && decoder_impl->frame_ctrl.dispose_op == kAPNGDisposeOpPrevious) {
+    decoder_impl->frame_ctrl.dispose_op = kAPNGDisposeOpBackground;
+  }
+
   if (decoder_impl->frame_index != 0u) {
     if (!decoder_impl->has_fctl()) {
       return bl_make_error(BL_ERROR_INVALID_DATA);
-- 
2.43.0


From c02bc9426c353b8a76cbc5b47fbfa0be6919c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 090/178] fix: PNG decoder ignored the transparent color of RGB
 images

---
 blend2d/codec/pngcodec.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 8d0a9eb..f8b8587 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1248,6 +1248,11 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
       // TODO: [PNG] 16-BPC.
     }
     else if (decoder_impl->color_type == kColorType2_RGB) {
+      // Pixels that match the color key are transparent, which requires an alpha channel.
+      if (decoder_impl->has_color_key()) {
+        decoder_impl->output_format = uint8_t(BL_FORMAT_PRGB32);
+      }
+
       png_fmt.add_flags(BL_FORMAT_FLAG_RGB);
       png_fmt.r_size = 8; png_fmt.r_shift = 16;
       png_fmt.g_size = 8; png_fmt.g_shift = 8;
@@ -1300,6 +1305,25 @@ static void zero_pixels(uint8_t* dst_data, intptr_t dst_stride, size_t w, uint32
   }
 }
 
+// Clears all PRGB32 pixels that match the given `key`.
+static void apply_color_key(uint8_t* dst_data, intptr_t dst_stride, uint32_t w, uint32_t h, const BLRgba64& key) noexcept {
+  if ((key.r() | key.g() | key.b()) > 0xFFu) {
+    return;
+  }
+
+  uint32_t key32 = BLRgba32(key.r(), key.g(), key.b(), 0xFFu).value;
+
+  for (uint32_t y = 0; y < h; y++) {
+    uint32_t* p = reinterpret_cast<uint32_t*>(dst_data);
+    for (uint32_t x = 0; x < w; x++) {
+      if (p[x] == key32) {
+        p[x] = 0u;
+      }
+    }
+    dst_data += dst_stride;
+  }
+}
+
 static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage* image_out, const uint8_t* input, size_t size) noexcept {
   // Number of bytes to overallocate so the DEFLATE decoder doesn't have to run the slow loop at the end.
   constexpr uint32_t kOutputSizeScratch = 1024u;
@@ -1610,6 +1634,10 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     decoder_impl->pixel_converter.convert_rect(dst_pixels, dst_stride, png_pixel_ptr + 1, intptr_t(steps[0].bpl), w, h);
   }
 
+  if (decoder_impl->color_type == kColorType2_RGB && decoder_impl->has_color_key()) {
+    apply_color_key(dst_pixels, dst_stride, w, h, decoder_impl->color_key);
+  }
+
   decoder_impl->frame_index++;
   if (decoder_impl->isAPNG() && decoder_impl->frame_index >= decoder_impl->image_info.frame_count) {
     // Restart the animation to create a loop.
-- 
2.43.0


From ab59d207e6f5cb461b1defc432f39408e6f4e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 091/178] fix: APNG frames using blend-over operation replaced
 the existing content

---
 blend2d/codec/pngcodec.cpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index f8b8587..241fa54 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1324,6 +1324,23 @@ static void apply_color_key(uint8_t* dst_data, intptr_t dst_stride, uint32_t w,
   }
 }
 
+// Blends PRGB32 pixels by using SRC_OVER operator.
+static void blend_pixels(uint8_t* dst_data, intptr_t dst_stride, const uint8_t* src_data, intptr_t src_stride, uint32_t w, uint32_t h) noexcept {
+  for (uint32_t y = 0; y < h; y++) {
+    for (size_t x = 0; x < size_t(w) * 4u; x += 4u) {
+      uint32_t src = MemOps::readU32a(src_data + x);
+      uint32_t inv = 255u - (src >> 24);
+
+      for (uint32_t i = 0; i < 32; i += 8) {
+        uint8_t* p = dst_data + x + (BL_BYTE_ORDER_NATIVE == BL_BYTE_ORDER_LE ? i : 24u - i) / 8u;
+        *p = uint8_t(((src >> i) & 0xFFu) + ((p[0] * inv + 127u) / 255u));
+      }
+    }
+    dst_data += dst_stride;
+    src_data += src_stride;
+  }
+}
+
 static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage* image_out, const uint8_t* input, size_t size) noexcept {
   // Number of bytes to overallocate so the DEFLATE decoder doesn't have to run the slow loop at the end.
   constexpr uint32_t kOutputSizeScratch = 1024u;
@@ -1521,6 +1538,9 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
   intptr_t dst_stride = image_data.stride;
   uint8_t* dst_pixels = static_cast<uint8_t*>(image_data.pixel_data);
 
+  // Only used by APNG frames that are blended with the existing content.
+  BLImage frame_image;
+
   if (decoder_impl->frame_index != 0u) {
     size_t bpp = image_out->depth() / 8u;
     size_t prev_area_width_in_bytes = decoder_impl->prev_ctrl.w * bpp;
@@ -1567,10 +1587,15 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
       copy_pixels(saved_pixels, intptr_t(copy_area_width_in_bytes), dst_pixels, dst_stride, copy_area_width_in_bytes, h);
     }
 
-    // TODO: [APNG] kAPNGBlendOpOver is currently not supported.
-    //
-    // if (decoder_impl->frame_ctrl.blend_op == kBlendOpOver) {
-    // }
+    // Decode the frame to a temporary image if it has to be blended with the existing content.
+    if (decoder_impl->frame_ctrl.blend_op == kAPNGBlendOpOver && decoder_impl->output_format == uint8_t(BL_FORMAT_PRGB32)) {
+      BLImageData frame_data;
+      BL_PROPAGATE(frame_image.create(int(w), int(h), BL_FORMAT_PRGB32));
+      BL_PROPAGATE(frame_image.make_mutable(&frame_data));
+
+      dst_pixels = static_cast<uint8_t*>(frame_data.pixel_data);
+      dst_stride = frame_data.stride;
+    }
   }
 
   if (progressive) {
@@ -1638,6 +1663,11 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     apply_color_key(dst_pixels, dst_stride, w, h, decoder_impl->color_key);
   }
 
+  if (!frame_image.is_empty()) {
+    uint8_t* blend_pixels_ptr = static_cast<uint8_t*>(image_data.pixel_data) + intptr_t(y) * image_data.stride + intptr_t(x * 4u);
+    blend_pixels(blend_pixels_ptr, image_data.stride, dst_pixels, dst_stride, w, h);
+  }
+
   decoder_impl->frame_index++;
   if (decoder_impl->isAPNG() && decoder_impl->frame_index >= decoder_impl->image_info.frame_count) {
     // Restart the animation to create a loop.
-- 
2.43.0


From c676c45c041570245796b9fda4162628dff58fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 092/178] fix: APNG decoder failed when compressed data of a
 frame ended before its last fdAT chunk

---
 blend2d/codec/pngcodec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 241fa54..db7c6a3 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1500,6 +1500,15 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     }
   }
 
+  // Skip the remaining chunks of the same type - such chunks could for example hold a checksum of the compressed data.
+  while (chunk_reader.has_chunk()) {
+    uint32_t chunk_size = chunk_reader.read_chunk_size();
+    if (!chunk_reader.has_chunk_with_size(chunk_size) || chunk_reader.read_chunk_tag() != frame_tag) {
+      break;
+    }
+    chunk_reader.advance(size_t(kPngChunkBaseSize) + chunk_size);
+  }
+
   decoder_impl->clear_flag(DecoderStatusFlags::kRead_fcTL);
   decoder_impl->buffer_index = PtrOps::byte_offset(input, chunk_reader.ptr);
 
-- 
2.43.0


From 155d3c3bb08c3aa1785a9647456fb794aada8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 093/178] fix: BMP decoder refused V2+ headers without
 bit-field masks and accepted unsupported compression

---
 blend2d/codec/bmpcodec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 9a638a7..8f8b0a1 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -435,6 +435,9 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
         return bl_make_error(BL_ERROR_IMAGE_UNKNOWN_FILE_FORMAT);
       }
     }
+    else if (compression != kCompressionBitFields && compression != kCompressionAlphaBitFields) {
+      return bl_make_error(BL_ERROR_IMAGE_UNKNOWN_FILE_FORMAT);
+    }
   }
 
   if (decoder_impl->file.image_offset < file_and_info_header_size)
@@ -515,6 +518,12 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
       data += channels * 4;
     }
   }
+  else if (has_bit_fields && compression == kCompressionRGB) {
+    // Masks are only defined by BITFIELDS compression. However, there are encoders that use them to describe pixels
+    // that have an alpha channel, so don't ignore them in 32-bit case unless they are all zero.
+    const uint32_t* masks = decoder_impl->info.win.masks;
+    has_bit_fields = depth == 32 && (masks[0] | masks[1] | masks[2] | masks[3]) != 0u;
+  }
 
   if (has_bit_fields) {
     // BitFields provided by info header must be continuous and non-overlapping.
-- 
2.43.0


From 8a637e2b3b73891b3eee60d4a473fd3524598484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 094/178] fix: BMP decoder treated unsigned size of OS/2
 bitmaps as signed

---
 blend2d/codec/bmpcodec_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index 78fd5f5..d235720 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -87,9 +87,9 @@ struct BmpInfoHeader {
     //! Header size (40, 52).
     uint32_t header_size;
     //! Bitmap width (16-bit value).
-    int16_t width;
+    uint16_t width;
     //! Bitmap height (16-bit value).
-    int16_t height;
+    uint16_t height;
     //! Number of color planes (always 1).
     uint16_t planes;
     //! Bits per pixel (1, 4, 8 or 24).
-- 
2.43.0


From 6438d8478a3305d9179dd530fa08968de94f5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 095/178] fix: BMP encoder wrote out of bounds when the size of
 the file exceeded 32 bits

---
 blend2d/codec/bmpcodec.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 8f8b0a1..57ab975 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -785,8 +785,15 @@ static BLResult BL_CDECL encoder_write_frame_impl(BLImageEncoderImpl* impl, BLAr
   }
 
   uint32_t image_offset = 2 + 12 + header_size + palette_size;
-  uint32_t image_size = (bpl + gap) * h;
-  uint32_t file_size = image_offset + image_size;
+
+  // Sizes stored in BMP headers are 32-bit.
+  uint64_t file_size64 = uint64_t(image_offset) + uint64_t(bpl + gap) * uint64_t(h);
+  if (BL_UNLIKELY(file_size64 > uint64_t(0xFFFFFFFFu))) {
+    return bl_make_error(BL_ERROR_IMAGE_TOO_LARGE);
+  }
+
+  uint32_t file_size = uint32_t(file_size64);
+  uint32_t image_size = file_size - image_offset;
 
   file.file_size = file_size;
   file.image_offset = image_offset;
-- 
2.43.0


From 67dc4b2d1e2096eb350d97a1da9a8ab5a123e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 096/178] fix: JPEG decoder computed sizes of planes in 32
 bits, which could overflow, and returned uninitialized pixels of components
 without a scan

---
 blend2d/codec/jpegcodec.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index ec6f1d3..e73bdc5 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -223,14 +223,18 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       comp->os_w = comp->bl_w * kDctSize;
       comp->os_h = comp->bl_h * kDctSize;
 
-      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(comp->os_w * comp->os_h));
+      size_t data_size = size_t(comp->os_w) * size_t(comp->os_h);
+      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(data_size));
       if (comp->data == nullptr) {
         return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
       }
 
+      // Make sure that the content is defined even when there is no scan that provides it.
+      memset(comp->data, 0, data_size);
+
       if (!is_baseline) {
         uint32_t kBlock8x8UInt16 = kDctSize2 * uint32_t(sizeof(int16_t));
-        size_t coeff_size = comp->bl_w * comp->bl_h * kBlock8x8UInt16;
+        size_t coeff_size = size_t(comp->bl_w) * size_t(comp->bl_h) * kBlock8x8UInt16;
         int16_t* coeff_data = static_cast<int16_t*>(decoder_impl->allocator.alloc(coeff_size, 16));
 
         if (coeff_data == nullptr) {
@@ -1186,8 +1190,8 @@ static BLResult decoder_process_mcus(BLJpegDecoderImpl* decoder_impl) noexcept {
 
       for (uint32_t j = 0; j < h; j++) {
         for (uint32_t i = 0; i < w; i++) {
-          int16_t *data = comp.coeff + 64 * (i + j * comp.bl_w);
-          opts.idct8(comp.data + comp.os_w * j * 8 + i * 8, intptr_t(comp.os_w), data, q_table->data);
+          int16_t *data = comp.coeff + size_t(64) * (i + size_t(j) * comp.bl_w);
+          opts.idct8(comp.data + size_t(comp.os_w) * j * 8 + i * 8, intptr_t(comp.os_w), data, q_table->data);
         }
       }
     }
-- 
2.43.0


From affed1b9f670a12be5bdfe8f64d25a653b05182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 097/178] fix: JPEG decoder accessed planes out of bounds when
 sampling factors were not multiples

---
 blend2d/codec/jpegcodec.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index e73bdc5..9d56a63 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -201,6 +201,13 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       mcu_sf_h = bl_max(mcu_sf_h, sf_h);
     }
 
+    // Only integral upsampling is supported.
+    for (i = 0; i < component_count; i++) {
+      if ((mcu_sf_w % decoder_impl->comp[i].sf_w) != 0u || (mcu_sf_h % decoder_impl->comp[i].sf_h) != 0u) {
+        return bl_make_error(BL_ERROR_JPEG_UNSUPPORTED_FEATURE);
+      }
+    }
+
     // Compute interleaved MCU info.
     uint32_t mcu_px_w = mcu_sf_w * kDctSize;
     uint32_t mcu_px_h = mcu_sf_h * kDctSize;
-- 
2.43.0


From a2afd7d8669887a28e7c69cbfaec3e409e50246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 098/178] fix: JPEG decoder used undefined DC Huffman tables
 and quantization tables

---
 blend2d/codec/jpegcodec.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 9d56a63..2489831 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -488,7 +488,12 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_end == 0)) {
+      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_start == 0)) {
+        return bl_make_error(BL_ERROR_INVALID_DATA);
+      }
+
+      // Validate that the quantization table used by the component has been defined.
+      if (!IntOps::bit_test(decoder_impl->q_table_mask, decoder_impl->comp[index].quant_id)) {
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-- 
2.43.0


From 3a6110f4afa9c76dad46c7264e6a50f07e1efebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 099/178] fix: JPEG decoder refused JFIF thumbnails followed by
 padding and read JFXX thumbnail size out of bounds

---
 blend2d/codec/jpegcodec.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 2489831..8870a69 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -562,7 +562,7 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       if (thumb_w && thumb_h) {
         uint32_t thumb_size = thumb_w * thumb_h * 3;
 
-        if (thumb_size + 14 < remain) {
+        if (thumb_size + 14 > remain) {
           return bl_make_error(BL_ERROR_INVALID_DATA);
         }
 
@@ -600,12 +600,18 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
           break;
 
         case kThumbnailPAL8:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = 768 + thumb_w * thumb_h;
           break;
 
         case kThumbnailRGB24:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = thumb_w * thumb_h * 3;
-- 
2.43.0


From 04a1974b55e970e4815aacc5cec6c3ec4a84f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 100/178] fix: BMP decoder refused files having BITMAPV5HEADER

---
 blend2d/codec/bmpcodec_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index d235720..e7c8927 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -26,7 +26,7 @@ static constexpr uint32_t kHeaderSizeWIN_V1 = 40;
 static constexpr uint32_t kHeaderSizeWIN_V2 = 52;
 static constexpr uint32_t kHeaderSizeWIN_V3 = 56;
 static constexpr uint32_t kHeaderSizeWIN_V4 = 108;
-static constexpr uint32_t kHeaderSizeWIN_V5 = 12;
+static constexpr uint32_t kHeaderSizeWIN_V5 = 124;
 
 static constexpr uint32_t kCompressionRGB = 0;
 static constexpr uint32_t kCompressionRLE8 = 1;
-- 
2.43.0


From 38a5d0e8aaa5220db69e112aed84c16d4265e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:21 +0000
Subject: [PATCH 101/178] fix: PNG decoder deinterlaced 2-bit images
 incorrectly when the width was not a multiple of a block

---
 blend2d/codec/pngcodec.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index db7c6a3..3a71f2d 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -458,7 +458,7 @@ static void deinterlace_bits(
           a = uint32_t(*d2++);
           b = 0;
 
-          if (x >=  3) a  = (uint32_t(*d3++) << 8);
+          if (x >=  3) a += (uint32_t(*d3++) << 8);
           if (x >=  2) b  = (uint32_t(*d5++)     );
           if (x >= 10) b += (uint32_t(*d5++) << 8);
 
@@ -504,10 +504,10 @@ static void deinterlace_bits(
           if (x >= 2)
             b = uint32_t(*d5++);
 
-          tmp_data[0] = combineByte2bpp(a     , b >> 10, b >> 4, b >> 12);
+          tmp_data[0] = combineByte2bpp(a     , b >> 2, a >> 2, b >> 4);
           if (x <=  4) break;
 
-          tmp_data[1] = combineByte2bpp(a >> 8, b >>  6, b >> 2, b >>  8);
+          tmp_data[1] = combineByte2bpp(a << 4, b << 2, a << 2, b     );
           break;
         }
       }
-- 
2.43.0


From a38a5fbe7965a9570159ee8815e133a6ba9d5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 102/178] fix: PNG decoder read one byte too many per row when
 deinterlacing 4-bit images having width 8n+5

---
 blend2d/codec/pngcodec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 3a71f2d..dd7d948 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -614,7 +614,9 @@ static void deinterlace_bits(
           tmp_data[1] = combineByte4bpp(a >> 8, b);
           if (x <= 4) break;
 
-          b = uint32_t(*d5++);
+          b = 0;
+          if (x >= 6) b = uint32_t(*d5++);
+
           tmp_data[2] = combineByte4bpp(a << 4, b >> 4);
           if (x <= 6) break;
 
-- 
2.43.0


From 995042da37665bd80e06e5557af5422da1fa45fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 103/178] fix: PNG decoder never initialized nor released the
 buffer that keeps the previous APNG frame

---
 blend2d/codec/pngcodec_p.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/codec/pngcodec_p.h b/blend2d/codec/pngcodec_p.h
index b702121..6af7fe2 100644
--- a/blend2d/codec/pngcodec_p.h
+++ b/blend2d/codec/pngcodec_p.h
@@ -139,10 +139,12 @@ struct BLPngDecoderImpl : public BLImageDecoderImpl {
     BLImageDecoderImpl::ctor(virt_, codec_);
     bl_call_ctor(png_pixel_data);
     bl_call_ctor(pixel_converter);
+    bl_call_ctor(previous_pixel_buffer);
   }
 
   //! Explicit destructor that destructs this Impl.
   BL_INLINE void dtor() noexcept {
+    bl_call_dtor(previous_pixel_buffer);
     bl_call_dtor(pixel_converter);
     bl_call_dtor(png_pixel_data);
     BLImageDecoderImpl::dtor();
-- 
2.43.0


From ba3fef7d6ee1b1adfa628ba07b51bd7985cf4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 104/178] fix: JPEG decoder rejected padded restart markers and
 read past the end of data that ended after a restart marker

---
 blend2d/codec/jpegcodec.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 8870a69..efab543 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -728,7 +728,17 @@ static BLResult decoder_handle_restart(BLJpegDecoderImpl* decoder_impl, DecoderB
   DecoderBitReader reader(stream);
   reader.refill();
 
-  if (!reader.at_end() || (size_t)(pEnd - reader.ptr) < 2 || !is_marker_rst(reader.ptr[1]))
+  if (!reader.at_end())
+    return bl_make_error(BL_ERROR_DECOMPRESSION_FAILED);
+
+  // The reader stops at the marker, the rest of the data follows it.
+  reader.end = pEnd;
+
+  // Skip an optional padding (0xFF) that precedes the marker.
+  while ((size_t)(pEnd - reader.ptr) >= 2 && reader.ptr[0] == 0xFF && reader.ptr[1] == 0xFF)
+    reader.advance(1);
+
+  if ((size_t)(pEnd - reader.ptr) < 2 || !is_marker_rst(reader.ptr[1]))
     return bl_make_error(BL_ERROR_DECOMPRESSION_FAILED);
 
   // Skip the marker and flush entropy bits.
-- 
2.43.0


From 3e3960c968e72b0bb89b65e7ca7317388b2e7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 105/178] fix: JPEG decoder misplaced rows of a non-interleaved
 baseline scan that is narrower than the interleaved one

---
 blend2d/codec/jpegcodec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index efab543..5c693ec 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1084,7 +1084,8 @@ static BLResult decoder_process_stream(BLJpegDecoderImpl* decoder_impl, const ui
       run->count = count;
       run->stride = stride;
       run->advance[0] = sf_w * unit_size * kDctSize;
-      run->advance[1] = run->advance[0] + (sf_h * kDctSize - 1) * stride;
+      // NOTE: A non-interleaved scan doesn't have to cover the whole stride.
+      run->advance[1] = sf_h * kDctSize * stride - (mcu_w - 1) * run->advance[0];
     }
     else {
       uint32_t block_size = unit_size * kDctSize2;
-- 
2.43.0


From 672d43ca5a3ce4df38887a2ff1d092437812796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 106/178] fix: PNG decoder read past the end of truncated data
 when looking for an acTL chunk

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index dd7d948..236db2a 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -931,7 +931,7 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
     return bl_make_error(BL_ERROR_INVALID_SIGNATURE);
   }
 
-  ChunkReader chunk_reader(p + kPngSignatureSize, p + size - kPngSignatureSize);
+  ChunkReader chunk_reader(p + kPngSignatureSize, p + size);
 
   // Already verified by `kMinSize_PNG` check - so it must be true.
   BL_ASSERT(chunk_reader.has_chunk());
-- 
2.43.0


From 171e5d5cb6fecf0f02d3c5143d09dcf10f2b9929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 107/178] fix: JPEG decoder reported success and no image size
 when the data ended by a padding

---
 blend2d/codec/jpegcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 5c693ec..7b64349 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1370,7 +1370,7 @@ static BLResult decoder_read_info_impl_internal(BLJpegDecoderImpl* decoder_impl,
       }
 
       if (p == end) {
-        break;
+        return bl_make_error(BL_ERROR_DATA_TRUNCATED);
       }
 
       p++;
-- 
2.43.0


From 9e032a4f214c5891b63c61ce381a40062bacc3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:52 +0000
Subject: [PATCH 108/178] fix: Deflate decoder used an invalid offset code as
 an out of range table index

---
 blend2d/compression/deflatedecoderfastimpl_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index 25e8e0b..66c1145 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -142,7 +142,7 @@ DecoderFastResult decode_impl(
       uint32_t offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
       if (BL_UNLIKELY(!DecoderUtils::is_off_or_len(entry))) {
-        entry = tables.offset_decode_table[offset];
+        entry = tables.offset_decode_table[offset & 0x7FFFu];
         offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
         if (BL_UNLIKELY(DecoderUtils::is_end_of_block(entry))) {
-- 
2.43.0


From 59e66af721f6f8f2e184f2d3a8e7d0165ffc3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 109/178] fix: BMP decoder reported success for an image having
 zero height

---
 blend2d/codec/bmpcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 57ab975..f5c9e49 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -403,7 +403,7 @@ static BLResult decoder_read_info_internal(BLBmpDecoderImpl* decoder_impl, const
   }
 
   // Verify whether input data is ok.
-  if (h == Traits::min_value<int32_t>() || w <= 0) {
+  if (h == Traits::min_value<int32_t>() || h == 0 || w <= 0) {
     return bl_make_error(BL_ERROR_INVALID_DATA);
   }
 
-- 
2.43.0


From a6e19e375674fd0234c958218b8c0d38146839ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 110/178] fix: BMP decoder wrote out of bounds when an RLE
 delta moved below the last line

---
 blend2d/codec/bmpcodec.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index f5c9e49..962bdca 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -217,13 +217,14 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
+      // Must be checked first as there are no pixels to fill below the last line.
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
@@ -314,13 +315,14 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
+      // Must be checked first as there are no pixels to fill below the last line.
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
-- 
2.43.0


From 14901fa7240486bc22d40d38971b0063223bdb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 111/178] fix: external image data was never released when
 create_from_data() reused an Impl and its access changed

---
 blend2d/core/object_p.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 59191c8..b49eda3 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -331,6 +331,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
   BLObjectImplHeader* header = get_impl_header(impl);
   header->flags = (header->flags & ~BLObjectImplHeader::kImmutableFlag) | ri_flags;
+  header->ref_count = ri_flags;
 }
 
 //! Returns a reference count of `impl`.
-- 
2.43.0


From 30b7e94a253c981fbda71f32f67c7682dc9d77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 112/178] fix: vertical scaling of narrow A8 images wrote out
 of bounds

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 6429df3..8a63fa1 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -640,7 +640,7 @@ static void BL_CDECL bl_image_scale_vert_bytes(const ImageScaleContext::Data* d,
 
       if (((intptr_t)dp & 0x7) == 0)
         goto BoundLarge;
-      i = 8u - uint32_t((uintptr_t)dp & 0x7u);
+      i = bl_min(8u - uint32_t((uintptr_t)dp & 0x7u), x);
 
 BoundSmall:
       x -= i;
@@ -718,7 +718,7 @@ BoundLarge:
 
       if (((size_t)dp & 0x3) == 0)
         goto UnboundLarge;
-      i = 4u - uint32_t((uintptr_t)dp & 0x3u);
+      i = bl_min(4u - uint32_t((uintptr_t)dp & 0x3u), x);
 
 UnboundSmall:
       x -= i;
-- 
2.43.0


From 9b6f4c9ad3429efc75580ec90d86f12b528a095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:20 +0000
Subject: [PATCH 113/178] fix: BLImage::convert() accepted invalid formats

---
 blend2d/core/image.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 484c3bb..5bf86fb 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -430,6 +430,9 @@ BL_API_IMPL BLResult bl_image_convert(BLImageCore* self, BLFormat format) noexce
   bl::FormatExt src_format = bl::FormatExt(self_impl->format);
   bl::FormatExt dst_format = bl::FormatExt(format);
 
+  if (BL_UNLIKELY(unsigned(format) > BL_FORMAT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   if (dst_format == src_format)
     return BL_SUCCESS;
 
-- 
2.43.0


From b2783d1448d258e659afefd0d31a9730fe7e380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:20 +0000
Subject: [PATCH 114/178] fix: BLImage::convert() from XRGB32 to A8 always
 failed

---
 blend2d/core/image.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index 5bf86fb..e439513 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -449,6 +449,16 @@ BL_API_IMPL BLResult bl_image_convert(BLImageCore* self, BLFormat format) noexce
   const BLFormatInfo& di = bl_format_info[size_t(dst_format)];
   const BLFormatInfo& si = bl_format_info[size_t(src_format)];
 
+  // There is no pixel converter that would convert a format without alpha to A8 - every pixel is opaque.
+  if (format == BL_FORMAT_A8 && !(si.flags & BL_FORMAT_FLAG_ALPHA)) {
+    BLImageCore dst_image;
+    BL_PROPAGATE(bl_image_init_as(&dst_image, size.w, size.h, format));
+
+    BLImagePrivateImpl* dst_impl = get_impl(&dst_image);
+    memset(dst_impl->pixel_data, 0xFF, size_t(dst_impl->stride) * size_t(unsigned(size.h)));
+    return replace_instance(self, &dst_image);
+  }
+
   // Save some cycles by calling `bl_pixel_converter_init_internal` as we don't need to sanitize the destination and
   // source formats in this case.
   if (bl_pixel_converter_init_internal(&pc, di, si, BL_PIXEL_CONVERTER_CREATE_NO_FLAGS) != BL_SUCCESS) {
-- 
2.43.0


From df1eca5f1dc4959de4d137fe21b0348c3b9da867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:38 +0000
Subject: [PATCH 115/178] fix: image downscaled more than 128 times was blank
 because filter weights were truncated to zero

---
 blend2d/core/imagescale.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 8a63fa1..0818559 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -144,9 +144,17 @@ static BLResult BL_CDECL image_scale_weights(ImageScaleContext::Data* d, uint32_
       int32_t iSum = 0;
       int32_t iMax = 0;
 
-      double wScale = 65535 / wSum;
+      // Weights are rounded cumulatively so the error is distributed across the whole kernel - when downscaling a lot
+      // all weights can be smaller than 1/256, so rounding them individually would lose most of them (or all of them).
+      double wScale = 256.0 / wSum;
+      double wAcc = 0.0;
+      int32_t wAccInt = 0;
+
       for (j = wIndex; j < wCount; j++) {
-        int32_t w = int32_t(wData[j] * wScale) >> 8;
+        wAcc += wData[j] * wScale;
+
+        int32_t w = Math::round_to_int(wAcc) - wAccInt;
+        wAccInt += w;
 
         // Remove zero weight from the beginning of the list.
         if (w == 0 && wIndex == j) {
-- 
2.43.0


From a0b50f31eafbad0a7579af49b0135c850ddc4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:38 +0000
Subject: [PATCH 116/178] fix: BLImage::create_from_data() used an invalid
 format as an out of range table index

---
 blend2d/core/image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/image.cpp b/blend2d/core/image.cpp
index e439513..c3b383b 100644
--- a/blend2d/core/image.cpp
+++ b/blend2d/core/image.cpp
@@ -71,10 +71,13 @@ static BL_INLINE BLResultT<intptr_t> calc_stride_from_create_params(int w, int h
 
 // Make sure that the external image won't cause any kind of overflow in rasterization and texture fetching.
 static BL_INLINE BLResult check_create_from_data_params(int w, int h, BLFormat format, intptr_t stride) noexcept {
+  if (BL_UNLIKELY(!check_size_and_format(w, h, format)))
+    return BL_ERROR_INVALID_VALUE;
+
   uint32_t minimum_stride = stride_for_width(uint32_t(w), bl_format_info[format].depth);
   uintptr_t bytes_per_line = uintptr_t(bl_abs(stride));
 
-  if (BL_UNLIKELY(!check_size_and_format(w, h, format) || bytes_per_line < minimum_stride))
+  if (BL_UNLIKELY(bytes_per_line < minimum_stride))
     return BL_ERROR_INVALID_VALUE;
 
   // Make sure that the image height multiplied by stride is not greater than 2^31 - this makes sure that we
-- 
2.43.0


From 13c92c472dc0c5bd0f24a8ded44633d04c6a5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 117/178] fix: TrueType contour that starts and ends with an
 off-curve point ended at a wrong point

---
 blend2d/opentype/otglyf.cpp         | 1 -
 blend2d/opentype/otglyfsimdimpl_p.h | 1 -
 2 files changed, 2 deletions(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 7a29096..1fe0b74 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -437,7 +437,6 @@ static BLResult BL_CDECL get_glyph_outlines(
               if (!(f & Simple::kOnCurvePoint)) {
                 BLPoint on_pt = (current_pt + initial_pt) * 0.5;
                 appender.add_vertex(BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * 0.5;
               }
 
               appender.add_vertex(BL_PATH_CMD_QUAD, initial_pt);
diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index ac77c05..d6b1f64 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -941,7 +941,6 @@ EmitSpline3Continue:
               if (f & kVecFlagOffCurve) {
                 Vec2xF64 on_pt = (current_pt + initial_pt) * half;
                 append_vertex(appender, BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * half;
               }
 
               appendVertex2x(appender, BL_PATH_CMD_QUAD, initial_pt, BL_PATH_CMD_ON, final_pt);
-- 
2.43.0


From bf8c16aba5c691389a5c45af9690d17b33e9f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 118/178] fix: WWS family and subfamily names were preferred
 over regular and typographic names

---
 blend2d/opentype/otname.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blend2d/opentype/otname.cpp b/blend2d/opentype/otname.cpp
index 730211d..edafaec 100644
--- a/blend2d/opentype/otname.cpp
+++ b/blend2d/opentype/otname.cpp
@@ -299,6 +299,15 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
     name_id_mask &= ~IntOps::lsb_bits_at<uint32_t>(BL_FONT_STRING_ID_SUBFAMILY_NAME, BL_FONT_STRING_ID_WWS_SUBFAMILY_NAME);
   }
 
+  // Only use WWS names if there is no other choice.
+  if (name_id_mask & IntOps::lsb_bits_at<uint32_t>(BL_FONT_STRING_ID_FAMILY_NAME, BL_FONT_STRING_ID_TYPOGRAPHIC_FAMILY_NAME)) {
+    name_id_mask &= ~IntOps::lsb_bit_at<uint32_t>(BL_FONT_STRING_ID_WWS_FAMILY_NAME);
+  }
+
+  if (name_id_mask & IntOps::lsb_bits_at<uint32_t>(BL_FONT_STRING_ID_SUBFAMILY_NAME, BL_FONT_STRING_ID_TYPOGRAPHIC_SUBFAMILY_NAME)) {
+    name_id_mask &= ~IntOps::lsb_bit_at<uint32_t>(BL_FONT_STRING_ID_WWS_SUBFAMILY_NAME);
+  }
+
   if (IntOps::bit_match(name_id_mask, IntOps::lsb_bits_at<uint32_t>(BL_FONT_STRING_ID_TYPOGRAPHIC_FAMILY_NAME, BL_FONT_STRING_ID_TYPOGRAPHIC_SUBFAMILY_NAME))) {
     trace.info("Has Typographic FamilyName and SubfamilyName\n");
     ot_face_impl->face_info.face_flags |= BL_FONT_FACE_FLAG_TYPOGRAPHIC_NAMES;
-- 
2.43.0


From 6b7c9bbab3cc91dad7c24d2935451ae348009dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 119/178] fix: TrueType glyph having more than 32767 points
 overflowed the size of its coordinates and was read out of bounds

---
 blend2d/opentype/otglyf.cpp         | 19 +++++++++----------
 blend2d/opentype/otglyfsimdimpl_p.h |  4 ++--
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 1fe0b74..8b1e97e 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -294,12 +294,12 @@ static BLResult BL_CDECL get_glyph_outlines(
           constexpr uint32_t kOffCurveSplineMask = Simple::kOnCurvePoint | (Simple::kOnCurvePoint << 7);
 
           {
-            // Number of bytes required by both X and Y coordinates as a packed `(Y << 16) | X` value.
+            // Number of bytes required by X and Y coordinates.
             //
-            // NOTE: We know that the maximum number of contours of a single glyph is 32767, thus we can store both the
-            // number of X and Y vertices in a single unsigned 32-bit integer, as each vertex has 2 bytes maximum, which
-            // would be 65534.
-            size_t xy_coordinates_size = 0;
+            // NOTE: A single glyph can have up to 65536 vertices and each coordinate of a vertex has 2 bytes maximum, so
+            // X and Y sizes cannot be packed into a single unsigned 32-bit integer.
+            xCoordinatesSize = 0;
+            yCoordinatesSize = 0;
 
             // We parse flags one-by-one and calculate the size required by vertices by using our FLAG tables so we don't
             // have to do bounds checking during vertex decoding.
@@ -316,7 +316,8 @@ static BLResult BL_CDECL get_glyph_outlines(
               f = ((f << 7) | tt_flag) & 0xFFu;
               fDataPtr[i++] = uint8_t(f);
 
-              xy_coordinates_size += vertex_size;
+              xCoordinatesSize += vertex_size & 0xFFFFu;
+              yCoordinatesSize += vertex_size >> 16;
               off_curve_spline_count += uint32_t((f & kOffCurveSplineMask) == 0);
 
               // Most of flags are not repeated. Some contours have no repeated flags at all, so make this likely.
@@ -334,15 +335,13 @@ static BLResult BL_CDECL get_glyph_outlines(
 
               f = ((f << 7) | tt_flag) & 0xFFu;
 
-              xy_coordinates_size += uint32_t(n) * vertex_size;
+              xCoordinatesSize += n * (vertex_size & 0xFFFFu);
+              yCoordinatesSize += n * (vertex_size >> 16);
               off_curve_spline_count += n * size_t((f & Simple::kOnCurvePoint) == 0);
 
               MemOps::fill_small(fDataPtr + i, uint8_t(f), n);
               i += n;
             } while (i < tt_vertex_count);
-
-            xCoordinatesSize = xy_coordinates_size & 0xFFFFu;
-            yCoordinatesSize = xy_coordinates_size >> 16;
           }
 
           remaining_size = PtrOps::bytes_until(gPtr, gEnd);
diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index d6b1f64..89e7412 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -472,8 +472,8 @@ SlowFlagsDecode:
 
             // Finally, calculate the size of x_coordinates[] and y_coordinates[] arrays.
             vSumXY += srli_u64<32>(vSumXY);
-            xCoordinatesSize = extract_u16<0>(vSumXY);
-            yCoordinatesSize = extract_u16<4>(vSumXY);
+            xCoordinatesSize = extract_u32<0>(vSumXY);
+            yCoordinatesSize = extract_u32<2>(vSumXY);
           }
 
           off_curve_spline_count = off_curve_spline_acc.get();
-- 
2.43.0


From 8950ea74ddf3f855af69e8c0f3c10bdb88ebff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 120/178] fix: cmap format 12 and 13 having no groups was read
 out of bounds

---
 blend2d/opentype/otcmap.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index b757479..259466d 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -506,6 +506,9 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
       if (count > Unicode::kCharMax || length < sizeof(CMapTable::Format12_13) + count * sizeof(CMapTable::Group))
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
+      if (!count)
+        return bl_make_error(BL_ERROR_INVALID_DATA);
+
       const CMapTable::Group* group_array = sub_table->groups.array();
       uint32_t first = group_array[0].first();
       uint32_t last = group_array[0].last();
-- 
2.43.0


From 9d84fd67f9aa07b34f518a76d57857ead85b1a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 121/178] fix: cmap format 6 was validated by using the header
 size of format 10, so valid tables were refused

---
 blend2d/opentype/otcmap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index 259466d..acb6a7d 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -443,10 +443,10 @@ BLResult validate_sub_table(RawTable cmap_table, uint32_t sub_table_offset, uint
       uint32_t first = sub_table->first();
       uint32_t count = sub_table->count();
 
-      if (!count || first + count > 0xFFFFu)
+      if (!count || first + count > 0x10000u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
-      if (length < sizeof(CMapTable::Format10) + count * 2u)
+      if (length < sizeof(CMapTable::Format6) + count * 2u)
         return bl_make_error(BL_ERROR_INVALID_DATA);
 
       format_out = format;
-- 
2.43.0


From df833b328b2d6f5fbcb8e56a2421f514862ee8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 122/178] fix: cmap format 4 mapped characters that have no
 glyph in the glyph id array to the id delta

---
 blend2d/opentype/otcmap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/opentype/otcmap.cpp b/blend2d/opentype/otcmap.cpp
index acb6a7d..ff483b1 100644
--- a/blend2d/opentype/otcmap.cpp
+++ b/blend2d/opentype/otcmap.cpp
@@ -133,6 +133,10 @@ NewMatch:
             goto UndefinedGlyph;
 
           uc = PtrOps::offset(match, raw_offset)->value();
+
+          // Zero in the array means a missing glyph - `id_delta` must not be added in such case.
+          if (uc == 0)
+            goto UndefinedGlyph;
         }
 
         uc += PtrOps::offset(match, id_delta_array_offset)->value();
-- 
2.43.0


From ccfb1fc019b98c251c202bd4b6bf8569339d9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 123/178] fix: BLFont reported zero weight, stretch and style
 instead of those of its face

---
 blend2d/core/font.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 89a4002..d5894de 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -37,6 +37,10 @@ static void bl_font_calc_properties(BLFontPrivateImpl* font_impl, const BLFontFa
   double y_scale = dm.units_per_em ? double(size) / double(dm.units_per_em) : 0.0;
   double x_scale = y_scale;
 
+  font_impl->weight                         = face_impl->weight;
+  font_impl->stretch                        = face_impl->stretch;
+  font_impl->style                          = face_impl->style;
+
   font_impl->metrics.size                   = size;
   font_impl->metrics.ascent                 = float(double(dm.ascent                ) * y_scale);
   font_impl->metrics.descent                = float(double(dm.descent               ) * y_scale);
@@ -67,9 +71,6 @@ static BL_INLINE BLResult alloc_impl(BLFontCore* self, const BLFontFaceCore* fac
   bl_call_ctor(impl->face.dcast(), face->dcast());
   bl_call_ctor(impl->feature_settings.dcast());
   bl_call_ctor(impl->variation_settings.dcast());
-  impl->weight = 0;
-  impl->stretch = 0;
-  impl->style = 0;
   bl_font_calc_properties(impl, FontFaceInternal::get_impl(face), size);
   return BL_SUCCESS;
 }
@@ -213,9 +214,6 @@ BL_API_IMPL BLResult bl_font_create_from_face(BLFontCore* self, const BLFontFace
 
     self_impl->feature_settings.dcast().clear();
     self_impl->variation_settings.dcast().clear();
-    self_impl->weight = 0;
-    self_impl->stretch = 0;
-    self_impl->style = 0;
     bl_font_calc_properties(self_impl, face_impl, size);
 
     return bl::ObjectInternal::assign_virtual_instance(&self_impl->face, face);
@@ -251,9 +249,6 @@ BL_API_IMPL BLResult bl_font_create_from_face_with_settings(BLFontCore* self, co
 
     self_impl->feature_settings.dcast().assign(feature_settings->dcast());
     self_impl->variation_settings.dcast().assign(variation_settings->dcast());
-    self_impl->weight = 0;
-    self_impl->stretch = 0;
-    self_impl->style = 0;
     bl_font_calc_properties(self_impl, face_impl, size);
 
     return bl::ObjectInternal::assign_virtual_instance(&self_impl->face, face);
-- 
2.43.0


From b29feef65b8c9fb107736f2f7526f8d3f2aba119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 124/178] fix: CFF dictionary that ends with an operand was
 read past its end

---
 blend2d/opentype/otcff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 40096f6..a6d63da 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -336,6 +336,10 @@ BLResult DictIterator::next(DictEntry& entry) noexcept {
   uint64_t fp_mask = 0;
 
   for (;;) {
+    // Operands must be followed by an operator.
+    if (BL_UNLIKELY(_data_ptr == _data_end))
+      return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+
     uint32_t b0 = *_data_ptr++;
 
     // Operators are encoded in range [0..21].
-- 
2.43.0


From 14eb76091e1c7dbf365f582596d6fe0ac2e8e570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 125/178] fix: CFF2 index having a huge count or an empty
 TopDict index was read out of bounds

---
 blend2d/opentype/otcff.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index a6d63da..74559de 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -250,12 +250,12 @@ static BLResult read_index(const void* data, size_t data_size, uint32_t cff_vers
     return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
 
   uint32_t offset_size = MemOps::readU8(PtrOps::offset<const uint8_t>(data, header_size - 1));
+  if (BL_UNLIKELY(offset_size < 1 || offset_size > 4 || (uint64_t(count) + 1u) * offset_size > data_size - header_size))
+    return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+
   uint32_t offset_array_size = (count + 1) * offset_size;
   uint32_t index_size_including_offsets = header_size + offset_array_size;
 
-  if (BL_UNLIKELY(offset_size < 1 || offset_size > 4 || index_size_including_offsets > data_size))
-    return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
-
   const uint8_t* offset_array = PtrOps::offset<const uint8_t>(data, header_size);
   uint32_t offset = read_offset(offset_array, offset_size);
 
@@ -2182,6 +2182,11 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
     }
   }
 
+  // There must be a TopDict, otherwise there would be nothing to read.
+  if (BL_UNLIKELY(!top_dict_index.count)) {
+    return bl_make_error(BL_ERROR_FONT_CFF_INVALID_DATA);
+  }
+
   {
     uint32_t offsets[2] = { top_dict_index.offset_at(0), top_dict_index.offset_at(1) };
     dict_iter.reset(top_dict_index.payload + offsets[0], offsets[1] - offsets[0]);
-- 
2.43.0


From 3ec7129355394fb82c4ba030f285f812e524d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 126/178] fix: CFF FDSelect was used without being validated
 when the font is not a complete CID font

---
 blend2d/opentype/otcff.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 74559de..fac783c 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -2441,7 +2441,8 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables, uint32_t cff_versi
     char_string_index.count,
     0);
 
-  ot_face_impl->cff.fd_select_offset = cid.fd_select_offset;
+  // NOTE: FDSelect offset was only validated if the font provides all CID information.
+  ot_face_impl->cff.fd_select_offset = (cid.flags & CIDInfo::kFlagsAll) == CIDInfo::kFlagsAll && cid.fd_array_offset ? cid.fd_select_offset : uint32_t(0);
   ot_face_impl->cff.fd_select_format = cid.fd_select_format;
   ot_face_impl->cff_fd_subr_indexes.swap(fd_subr_indexes);
 
-- 
2.43.0


From fa89727bca0505c55cefd5848f125f6885abb840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 127/178] fix: CFF operators ifelse, index, and roll computed
 wrong values

---
 blend2d/opentype/otcff.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index fac783c..b54d3ac 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1634,7 +1634,7 @@ OnReturn:
             // s1 s2 v1 v2 ifelse (12 22) out {v1 <= v2 ? s1 : s2}
             case kCSOpIfElse & 0xFFu: {
               BL_ASSERT(v_min_operands >= 4);
-              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(v_buf[v_idx - 2] <= v_buf[v_idx - 1])];
+              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(v_buf[v_idx - 2] > v_buf[v_idx - 1])];
               v_idx -= 3;
               continue;
             }
@@ -1749,10 +1749,10 @@ OnReturn:
                 val_to_push = v_buf[v_idx - 2];
               }
               else {
-                // It will overflow if idx_value is greater than `v_idx - 1`, thus,
+                // It will overflow if idx_value is greater than `v_idx - 2`, thus,
                 // `index_to_read` would become a very large number that would not
                 // pass the condition afterwards.
-                size_t index_to_read = v_idx - 1 - size_t(unsigned(idx_value));
+                size_t index_to_read = size_t(v_idx) - 2u - size_t(unsigned(idx_value));
                 if (index_to_read < v_idx - 1) {
                   val_to_push = v_buf[index_to_read];
                 }
@@ -1784,13 +1784,16 @@ OnReturn:
               if (shift == 0)
                 continue;
 
+              // Only the top `count` values are rotated.
+              double* v_roll = v_buf + (v_idx - count);
+
               double last = 0;
               uint32_t cur_idx = IntOps::negate(uint32_t(1));
               uint32_t base_idx = cur_idx;
 
               for (uint32_t i = 0; i < count; i++) {
                 if (cur_idx == base_idx) {
-                  last = v_buf[++cur_idx];
+                  last = v_roll[++cur_idx];
                   base_idx = cur_idx;
                 }
 
@@ -1799,7 +1802,7 @@ OnReturn:
                   cur_idx -= count;
                 }
 
-                BLInternal::swap(v_buf[cur_idx], last);
+                BLInternal::swap(v_roll[cur_idx], last);
               }
 
               continue;
-- 
2.43.0


From b13952e4e590a467b3675fe3d7f3bbd070d007e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 128/178] fix: bounds of CFF glyphs had Y flipped compared to
 bounds of TrueType glyphs

---
 blend2d/opentype/otcff.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index b54d3ac..8edaa75 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1958,7 +1958,8 @@ static BLResult BL_CDECL get_glyph_bounds(
   size_t count) noexcept {
 
   BLResult result = BL_SUCCESS;
-  BLMatrix2D transform = BLMatrix2D::make_identity();
+  // NOTE: Glyph bounds use Y that grows down, like glyph bounds of TrueType glyphs.
+  BLMatrix2D transform(1.0, 0.0, 0.0, -1.0, 0.0, 0.0);
 
   ScopedBufferTmp<1024> tmp_buffer;
   GlyphBoundsConsumer consumer;
-- 
2.43.0


From f2e00f53cb0ce3db5ee93217a6c789442842ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 129/178] fix: CFF operators flex1 and hflex1 did not end at
 the coordinate of the first point

---
 blend2d/opentype/otcff.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 8edaa75..da6fcc0 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1541,15 +1541,16 @@ OnReturn:
               x5 = x4 + m.x_by_a(v_buf[8], v_buf[9]);
               y5 = y4 + m.y_by_a(v_buf[8], v_buf[9]);
 
-              double dx = bl_abs(v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8]);
-              double dy = bl_abs(v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9]);
-              if (dx > dy) {
-                px = x5 + m.x_by_x(v_buf[10]);
-                py = y5 + m.y_by_x(v_buf[10]);
+              // The other coordinate of the last point is the same as the coordinate of the first point.
+              double dx = v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8];
+              double dy = v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9];
+              if (bl_abs(dx) > bl_abs(dy)) {
+                px = x5 + m.x_by_a(v_buf[10], -dy);
+                py = y5 + m.y_by_a(v_buf[10], -dy);
               }
               else {
-                px = x5 + m.x_by_y(v_buf[10]);
-                py = y5 + m.y_by_y(v_buf[10]);
+                px = x5 + m.x_by_a(-dx, v_buf[10]);
+                py = y5 + m.y_by_a(-dx, v_buf[10]);
               }
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
@@ -1599,8 +1600,11 @@ OnReturn:
               y4 = y3 + m.y_by_x(v_buf[5]);
               x5 = x4 + m.x_by_a(v_buf[6], v_buf[7]);
               y5 = y4 + m.y_by_a(v_buf[6], v_buf[7]);
-              px = x5 + m.x_by_x(v_buf[8]);
-              py = y5 + m.y_by_x(v_buf[8]);
+
+              // Y of the last point is the same as Y of the first point.
+              double dy = v_buf[1] + v_buf[3] + v_buf[7];
+              px = x5 + m.x_by_a(v_buf[8], -dy);
+              py = y5 + m.y_by_a(v_buf[8], -dy);
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
               v_idx = 0;
-- 
2.43.0


From 27fe5843c0953458615c79f17965d037dbd1119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 130/178] fix: validation of OpenType layout tables accepted
 sub-tables past the end and refused the last ones

---
 blend2d/opentype/otlayout.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b476c5a..c3744b1 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -406,6 +406,11 @@ static bool validateTagRef16Array(ValidationContext& validator, RawTable data, c
 }
 */
 
+//! Returns a range of valid offsets of sub-tables that are at least `min_size` bytes long and follow a header.
+static BL_INLINE OffsetRange sub_table_offset_range_of(uint32_t header_size, uint32_t table_size, uint32_t min_size) noexcept {
+  return OffsetRange{header_size, table_size >= min_size ? table_size - min_size + 1u : 0u};
+}
+
 // bl::OpenType::LayoutImpl - GSUB & GPOS - Apply Scope
 // ====================================================
 
@@ -661,7 +666,7 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
     return validator.invalid_table_size(table_name, table.size, header_size);
 
   const Offset16* rule_set_offset_array = table->rule_set_offsets.array();
-  OffsetRange rule_set_offset_range{header_size, table.size - 4u};
+  OffsetRange rule_set_offset_range = sub_table_offset_range_of(header_size, table.size, 4u);
 
   for (uint32_t i = 0; i < rule_set_count; i++) {
     uint32_t rule_set_offset = rule_set_offset_array[i].value();
@@ -684,7 +689,7 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
       return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, rule_set_header_size);
 
     const Offset16* rule_offset_array = rule_set->array();
-    OffsetRange rule_offset_range{rule_set_header_size, rule_set.size - SequenceRule::kBaseSize};
+    OffsetRange rule_offset_range = sub_table_offset_range_of(rule_set_header_size, rule_set.size, SequenceRule::kBaseSize);
 
     for (uint32_t rule_index = 0; rule_index < rule_count; rule_index++) {
       uint32_t rule_offset = rule_offset_array[rule_index].value();
@@ -966,7 +971,7 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
     return validator.invalid_table_size(table_name, table.size, header_size);
 
   const Offset16* rule_set_offset_array = table->rule_set_offsets.array();
-  OffsetRange rule_set_offset_range{header_size, table.size - 4u};
+  OffsetRange rule_set_offset_range = sub_table_offset_range_of(header_size, table.size, 4u);
 
   for (uint32_t i = 0; i < rule_set_count; i++) {
     uint32_t rule_set_offset = rule_set_offset_array[i].value();
@@ -989,7 +994,7 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
       return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, rule_set_header_size);
 
     const Offset16* rule_offset_array = rule_set->array();
-    OffsetRange rule_offset_range{rule_set_header_size, rule_set.size - ChainedSequenceRule::kBaseSize};
+    OffsetRange rule_offset_range = sub_table_offset_range_of(rule_set_header_size, rule_set.size, ChainedSequenceRule::kBaseSize);
 
     for (uint32_t rule_index = 0; rule_index < rule_count; rule_index++) {
       uint32_t rule_offset = rule_offset_array[rule_index].value();
@@ -1522,7 +1527,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
 
   // Offsets to glyph sequences.
   const Offset16* offset_array = table->sequence_offsets.array();
-  OffsetRange offset_range{header_size, table.size - 4u};
+  OffsetRange offset_range = sub_table_offset_range_of(header_size, table.size, 2u);
 
   for (uint32_t i = 0; i < sequence_set_count; i++) {
     uint32_t sequence_offset = offset_array[i].value();
@@ -1536,7 +1541,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
     uint32_t sequence_length = sequence->count();
     uint32_t sequence_table_size = 2u + sequence_length * 2u;
 
-    if (sequence.fits(sequence_table_size))
+    if (!sequence.fits(sequence_table_size))
       return validator.fail("%s.sequence[%u] is truncated (size=%u, required=%u)", table_name, i, sequence.size, sequence_table_size);
   }
 
@@ -1646,7 +1651,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type3_format1(Validation
 
   // Offsets to AlternateSet tables.
   const Offset16* offset_array = lookup->alternate_set_offsets.array();
-  OffsetRange offset_range{header_size, table.size - 4u};
+  OffsetRange offset_range = sub_table_offset_range_of(header_size, table.size, 4u);
 
   if (alternate_set_count < coverage_count)
     validator.warn("%s has less AlternateSet records (%u) than coverage entries (%u)", table_name, alternate_set_count, coverage_count);
@@ -1735,7 +1740,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
 
   // Offsets to LigatureSet tables.
   const Offset16* ligature_set_offset_array = lookup->ligature_set_offsets.array();
-  OffsetRange ligature_set_offset_range{header_size, table.size-4u};
+  OffsetRange ligature_set_offset_range = sub_table_offset_range_of(header_size, table.size, 4u);
 
   for (uint32_t i = 0; i < ligature_set_count; i++) {
     uint32_t ligature_set_offset = ligature_set_offset_array[i].value();
@@ -1753,7 +1758,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
       return validator.fail("%s.ligature_set[%u] overflows the table size by [%u] bytes", table_name, i, ligature_set_header_size - ligature_set.size);
 
     const Offset16* ligature_offset_array = ligature_set->array();
-    OffsetRange ligature_offset_range{ligature_set_header_size, ligature_set.size - 6u};
+    OffsetRange ligature_offset_range = sub_table_offset_range_of(ligature_set_header_size, ligature_set.size, 6u);
 
     for (uint32_t ligature_index = 0; ligature_index < ligature_count; ligature_index++) {
       uint32_t ligature_offset = ligature_offset_array[ligature_index].value();
@@ -2603,7 +2608,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gpos_lookup_type2_format1(Validation
     return validator.invalid_table_size(table_name, table.size, header_size);
 
   const Offset16* offset_array = table->pair_set_offsets.array();
-  OffsetRange pair_set_offset_range{header_size, table.size - 2u};
+  OffsetRange pair_set_offset_range = sub_table_offset_range_of(header_size, table.size, 2u);
 
   for (uint32_t i = 0; i < pair_set_count; i++) {
     uint32_t pair_set_offset = offset_array[i].value();
@@ -2613,7 +2618,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gpos_lookup_type2_format1(Validation
     Table<GPosTable::PairSet> pair_set(table.sub_table(pair_set_offset));
 
     uint32_t pair_value_count = pair_set->pair_value_count();
-    uint32_t pair_set_size = pair_value_count * value_record_size;
+    uint32_t pair_set_size = 2u + pair_value_count * value_record_size;
 
     if (!pair_set.fits(pair_set_size))
       return validator.invalid_table_size("PairSet", pair_set.size, pair_set_size);
@@ -3261,7 +3266,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     return validator.invalid_table_size(table_name, lookup_list.size, lookup_list_size);
 
   uint32_t lookup_offset = lookup_list->array()[lookup_index].value();
-  OffsetRange lookup_offset_range{lookup_list_size, lookup_list.size - GSubGPosTable::LookupTable::kBaseSize};
+  OffsetRange lookup_offset_range = sub_table_offset_range_of(lookup_list_size, lookup_list.size, GSubGPosTable::LookupTable::kBaseSize);
 
   if (!lookup_offset_range.contains(lookup_offset))
     return validator.fail("%s[%u] has invalid offset (%u), valid range=[%u:%u]",
@@ -3282,7 +3287,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     return validator.fail("%s[%u] truncated (size=%u, required=%u)", table_name, lookup_index, lookup_table.size, lookup_table_size);
 
   uint32_t sub_table_min_size = lookup_type == lookup_info.extension_type ? 8u : 6u;
-  OffsetRange sub_table_offset_range{lookup_table_size, lookup_table.size - sub_table_min_size};
+  OffsetRange sub_table_offset_range = sub_table_offset_range_of(lookup_table_size, lookup_table.size, sub_table_min_size);
 
   uint32_t ext_previous_lookup_type = 0u;
 
-- 
2.43.0


From ebd90a73d1a160d1b7ea8866ec4d65d60503387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:20 +0000
Subject: [PATCH 131/178] fix: script and feature lists of OpenType layout
 tables were read without checking their sizes

---
 blend2d/opentype/otlayout.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index c3744b1..3dbf7ab 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3600,7 +3600,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> feature_list_offsets(table.sub_table_unchecked(feature_list_offset));
     uint32_t count = feature_list_offsets->count();
 
-    if (count) {
+    if (count && feature_list_offsets.fits(2u + count * uint32_t(sizeof(TagRef16)))) {
       const TagRef16* array = feature_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag feature_tag = array[i].tag();
@@ -3617,7 +3617,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> script_list_offsets(table.sub_table_unchecked(script_list_offset));
     uint32_t count = script_list_offsets->count();
 
-    if (count) {
+    if (count && script_list_offsets.fits(2u + count * uint32_t(sizeof(TagRef16)))) {
       const TagRef16* array = script_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag script_tag = array[i].tag();
@@ -3653,7 +3653,7 @@ static Table<GSubGPosTable::ScriptTable> find_script_in_script_list(Table<Array1
     for (uint32_t i = 0; i < script_count; i++) {
       BLTag record_tag = script_list_array[i].tag();
       if (record_tag == script_tag || record_tag == default_script_tag) {
-        table_out = script_list_offsets.sub_table_unchecked(script_list_array[i].offset());
+        table_out = script_list_offsets.sub_table(script_list_array[i].offset());
         if (record_tag == script_tag) {
           break;
         }
@@ -3686,7 +3686,7 @@ static BL_INLINE void populate_gsub_gpoos_lookup_bits(
       BLTag feature_tag = feature_list_offsets->array()[feature_index].tag();
       if (FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
         uint32_t feature_offset = feature_list_offsets->array()[feature_index].offset();
-        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table_unchecked(feature_offset));
+        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table(feature_offset));
 
         // Don't use a feature if its offset is out of bounds.
         if (BL_LIKELY(blFontTableFitsT<GSubGPosTable::FeatureTable>(feature_table))) {
@@ -3719,7 +3719,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
   const LayoutData::GSubGPos& d = ot_face_impl->layout.kinds[size_t(lookup_kind)];
   Table<GSubGPosTable> table = ot_face_impl->layout.tables[size_t(lookup_kind)];
 
-  if (!table) {
+  if (!table || !d.script_list_offset || !d.feature_list_offset) {
     return BL_SUCCESS;
   }
 
@@ -3753,7 +3753,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
     return BL_SUCCESS;
   }
 
-  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table_unchecked(lang_sys_offset));
+  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table(lang_sys_offset));
   if (BL_UNLIKELY(!blFontTableFitsT<GSubGPosTable::LangSysTable>(lang_sys_table))) {
     return BL_SUCCESS;
   }
@@ -3766,7 +3766,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
   }
 
   uint32_t feature_count = feature_list_offsets->count();
-  if (feature_list_offsets.size < 2u + feature_count * 2u) {
+  if (feature_list_offsets.size < 2u + feature_count * uint32_t(sizeof(TagRef16))) {
     return BL_SUCCESS;
   }
 
-- 
2.43.0


From 659f165ff9829262b1685b8220f4110706446a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 132/178] fix: GSUB and GPOS extension lookups were always
 refused

---
 blend2d/opentype/otlayout.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 3dbf7ab..49fd1f8 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3276,7 +3276,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
   uint32_t lookup_type = lookup_table->lookup_type();
 
   // Reject unknown lookup Type+Format combinations (lookup_type 0 and values above lookup_max_value are invalid).
-  if (lookup_type - 1u > uint32_t(lookup_info.lookup_max_value))
+  if (lookup_type - 1u >= uint32_t(lookup_info.lookup_max_value))
     return validator.fail("%s[%u] invalid lookup type (%u)", table_name, lookup_index, lookup_type);
 
   uint32_t sub_table_count = lookup_table->sub_table_offsets.count();
@@ -3300,37 +3300,38 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     Table<GSubGPosTable::LookupHeader> sub_table(lookup_table.sub_table(sub_table_offset));
     uint32_t lookup_format = sub_table->format();
 
+    uint32_t sub_table_type = lookup_type;
     uint32_t lookup_type_and_format = lookup_info.type_info[lookup_type].type_and_format + lookup_format - 1u;
     if (lookup_type == lookup_info.extension_type) {
       Table<GSubGPosTable::ExtensionLookup> ext_sub_table(sub_table);
 
-      lookup_type = ext_sub_table->lookup_type();
+      sub_table_type = ext_sub_table->lookup_type();
       uint32_t ext_lookup_format = ext_sub_table->format();
       uint32_t ext_sub_table_offset = ext_sub_table->offset();
 
-      if (!ext_previous_lookup_type && lookup_type != ext_previous_lookup_type)
+      if (ext_previous_lookup_type && sub_table_type != ext_previous_lookup_type)
         return validator.fail("%s[%u].sub_table[%u] has a different type (%u) than a previous extension (%u)",
-          table_name, lookup_index, sub_table_index, lookup_type, ext_previous_lookup_type);
+          table_name, lookup_index, sub_table_index, sub_table_type, ext_previous_lookup_type);
 
-      ext_previous_lookup_type = lookup_type;
-      bool valid_type = lookup_type != lookup_info.extension_type && lookup_type - 1u < uint32_t(lookup_info.lookup_max_value);
+      ext_previous_lookup_type = sub_table_type;
+      bool valid_type = sub_table_type != lookup_info.extension_type && sub_table_type - 1u < uint32_t(lookup_info.lookup_max_value);
 
       if (!valid_type || ext_lookup_format != 1)
         return validator.fail("%s[%u].sub_table[%u] has invalid extension type (%u) & format (%u) combination",
-          table_name, lookup_index, sub_table_index, lookup_type, ext_lookup_format);
+          table_name, lookup_index, sub_table_index, sub_table_type, ext_lookup_format);
 
       sub_table = ext_sub_table.sub_table(ext_sub_table_offset);
       if (!sub_table.fits())
         return validator.fail("%s[%u].sub_table[%u] of extension type points to a truncated table (size=%u required=%u)",
-          table_name, lookup_index, sub_table_index);
+          table_name, lookup_index, sub_table_index, sub_table.size, uint32_t(GSubGPosTable::LookupHeader::kBaseSize));
 
       lookup_format = sub_table->format();
-      lookup_type_and_format = lookup_info.type_info[lookup_type].type_and_format + lookup_format - 1u;
+      lookup_type_and_format = lookup_info.type_info[sub_table_type].type_and_format + lookup_format - 1u;
     }
 
-    if (lookup_format - 1u >= lookup_info.type_info[lookup_type].format_count)
+    if (lookup_format - 1u >= lookup_info.type_info[sub_table_type].format_count)
       return validator.fail("%s[%u].sub_table[%u] has invalid type (%u) & format (%u) combination",
-        table_name, lookup_index, sub_table_index, lookup_type, lookup_format);
+        table_name, lookup_index, sub_table_index, sub_table_type, lookup_format);
 
     bool valid = isGSub ? validateGSubLookup(validator, sub_table, GSubLookupAndFormat(lookup_type_and_format))
                         : validateGPosLookup(validator, sub_table, GPosLookupAndFormat(lookup_type_and_format));
-- 
2.43.0


From 43728efa3fb92fe4680f35ce218ec9ecb5694a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 133/178] fix: GSUB multiple substitution wrote sequences out
 of bounds and lost the grown buffer

---
 blend2d/opentype/otlayout.cpp        | 110 ++++++++++++++++-----------
 blend2d/opentype/otlayoutcontext_p.h |  15 ++++
 2 files changed, 80 insertions(+), 45 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 49fd1f8..599fe49 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1551,82 +1551,98 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
 // bl::OpenType::LayoutImpl - GSUB - Lookup Type #2 - Multiple Substitution Lookup
 // ===============================================================================
 
-// TODO: [OpenType] [SECURITY] What if the glyph contains kSeqMask???
 template<uint32_t kCovFmt, typename ApplyScope>
 static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type2_format1(GSubContext& ctx, Table<GSubTable::MultipleSubst1> table, ApplyScope scope, LookupFlags flags, const CoverageTableIterator& cov_it) noexcept {
   BL_ASSERT(scope.end() <= ctx.size());
   BL_ASSERT_VALIDATED(table.fits());
 
-  constexpr BLGlyphId kSequenceMarker = 0x80000000u;
-
-  BLGlyphId* glyph_in_ptr = ctx.glyph_data() + scope.index();
-  BLGlyphId* glyph_in_end = ctx.glyph_data() + scope.end();
-
   // Cannot apply a lookup if there is no data to be processed.
-  BL_ASSERT(glyph_in_ptr != glyph_in_end);
+  BL_ASSERT(scope.index() != scope.end());
 
   uint32_t sequence_set_count = table->sequence_offsets.count();
   BL_ASSERT_VALIDATED(table.fits(GSubTable::MultipleSubst1::kBaseSize + sequence_set_count * 2u));
 
+  GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
+
+  // Returns an offset of the sequence that substitutes the given glyph or zero if there is none.
+  auto find_sequence = [&](BLGlyphId glyph_id) noexcept -> uint32_t {
+    uint32_t coverage_index;
+    if (!glyph_range.contains(glyph_id) || !cov_it.find<kCovFmt>(glyph_id, coverage_index) || coverage_index >= sequence_set_count)
+      return 0u;
+    return table->sequence_offsets.array()[coverage_index].value();
+  };
+
+  // First loop removes glyphs substituted by empty sequences and calculates the size of the output. Sequences
+  // that are not empty never shrink the buffer, so they can be written in-place in a reverse order afterwards.
+  BLGlyphId* glyph_data = ctx.glyph_data();
+  BLGlyphInfo* info_data = ctx.info_data();
+
+  size_t in_size = ctx.size();
+  size_t out_index = scope.index();
   size_t replaced_glyph_count = 0;
   size_t replaced_sequence_size = 0;
-  GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
-  do {
-    BLGlyphId glyph_id = glyph_in_ptr[0];
-    if (glyph_range.contains(glyph_id)) {
-      uint32_t coverage_index;
-      if (cov_it.find<kCovFmt>(glyph_id, coverage_index) && coverage_index < sequence_set_count) {
-        uint32_t sequence_offset = table->sequence_offsets.array()[coverage_index].value();
-        BL_ASSERT_VALIDATED(sequence_offset <= table.size - 2u);
+  for (size_t i = scope.index(); i < scope.end(); i++) {
+    BLGlyphId glyph_id = glyph_data[i];
+    uint32_t sequence_offset = find_sequence(glyph_id);
 
-        uint32_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
-        BL_ASSERT_VALIDATED(sequence_offset + sequence_length * 2u <= table.size - 2u);
+    if (sequence_offset) {
+      uint32_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
+      BL_ASSERT_VALIDATED(sequence_offset + sequence_length * 2u <= table.size - 2u);
 
-        glyph_in_ptr[0] = sequence_offset | kSequenceMarker;
-        replaced_glyph_count++;
-        replaced_sequence_size += sequence_length;
-      }
+      if (!sequence_length)
+        continue;
+
+      replaced_glyph_count++;
+      replaced_sequence_size += sequence_length;
+    }
+
+    glyph_data[out_index] = glyph_id;
+    info_data[out_index] = info_data[i];
+    out_index++;
+  }
+
+  size_t scope_end = out_index;
+  if (scope_end != scope.end()) {
+    for (size_t i = scope.end(); i < in_size; i++, out_index++) {
+      glyph_data[out_index] = glyph_data[i];
+      info_data[out_index] = info_data[i];
     }
-  } while (scope.is_range() && ++glyph_in_ptr != glyph_in_end);
+    in_size = out_index;
+    ctx.truncate(in_size);
+  }
 
   // Not a single match if zero.
   if (!replaced_glyph_count)
     return BL_SUCCESS;
 
-  // We could be only processing a range withing the work buffer, thus it's not safe to reuse `glyph_in_ptr`.
-  glyph_in_ptr = ctx.glyph_data() + ctx.size();
-
-  BLGlyphId* glyph_in_start = ctx.glyph_data();
-  BLGlyphInfo* info_in_ptr = ctx.info_data() + ctx.size();
-
-  size_t size_after = ctx.size() - replaced_glyph_count + replaced_sequence_size;
+  size_t size_after = in_size - replaced_glyph_count + replaced_sequence_size;
   BL_PROPAGATE(ctx.ensure_work_buffer(size_after));
 
   BLGlyphId* glyph_out_ptr = ctx.glyph_data() + size_after;
   BLGlyphInfo* info_out_ptr = ctx.info_data() + size_after;
 
-  // Second loop applies all matches that were found and marked.
+  // Second loop applies all matches.
+  size_t i = in_size;
   do {
-    BLGlyphId glyph_id = *--glyph_in_ptr;
-    *--glyph_out_ptr = glyph_id;
-    *--info_out_ptr = *--info_in_ptr;
+    BLGlyphId glyph_id = glyph_data[--i];
+    BLGlyphInfo glyph_info = info_data[i];
+    uint32_t sequence_offset = (i >= scope.index() && i < scope_end) ? find_sequence(glyph_id) : 0u;
 
-    if (glyph_id & kSequenceMarker) {
-      size_t sequence_offset = glyph_id & ~kSequenceMarker;
+    if (sequence_offset) {
       size_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
       const UInt16* sequence_data = table.data_as<UInt16>(sequence_offset + 2u);
 
-      glyph_out_ptr -= sequence_length;
-      info_out_ptr -= sequence_length;
-
-      while (sequence_length) {
-        sequence_length--;
-        glyph_out_ptr[sequence_length] = sequence_data[sequence_length].value();
-        info_out_ptr[sequence_length] = *info_in_ptr;
-      }
+      do {
+        *--glyph_out_ptr = sequence_data[--sequence_length].value();
+        *--info_out_ptr = glyph_info;
+      } while (sequence_length);
+    }
+    else {
+      *--glyph_out_ptr = glyph_id;
+      *--info_out_ptr = glyph_info;
     }
-  } while (glyph_in_ptr != glyph_in_start);
+  } while (i);
 
   BL_ASSERT(glyph_out_ptr == ctx.glyph_data());
   return BL_SUCCESS;
@@ -3505,7 +3521,11 @@ static BLResult BL_CDECL apply_lookups(const BLFontFaceImpl* face_impl, BLGlyphB
           did_process_lookup = true;
         }
 
-        BL_PROPAGATE(apply_lookup(ctx, lookup_header, lookup_type_and_format, ApplyRange{0, ctx.size()}, LookupFlags(lookup_flags)));
+        BLResult result = apply_lookup(ctx, lookup_header, lookup_type_and_format, ApplyRange{0, ctx.size()}, LookupFlags(lookup_flags));
+        if (BL_UNLIKELY(result != BL_SUCCESS)) {
+          ctx.done();
+          return result;
+        }
 
         if (ctx.is_empty())
           goto done;
diff --git a/blend2d/opentype/otlayoutcontext_p.h b/blend2d/opentype/otlayoutcontext_p.h
index a04a0c6..b85ed62 100644
--- a/blend2d/opentype/otlayoutcontext_p.h
+++ b/blend2d/opentype/otlayoutcontext_p.h
@@ -163,10 +163,18 @@ struct GSubContextNested : public GSubContext {
 
 //! A primary GSUB context that is used to process top-level lookups.
 struct GSubContextPrimary : public GSubContext {
+  enum : size_t {
+    //! Maximum growth of the glyph buffer - prevents malicious fonts from exhausting all available memory.
+    kMaxGrowthFactor = 64,
+    //! Maximum buffer size that is always allowed, regardless of the initial size of the glyph buffer.
+    kMinSizeLimit = 16384
+  };
+
   //! \name Members
   //! \{
 
   BLGlyphBufferPrivateImpl* _gbd;
+  size_t _size_limit;
   GSubContextNested _nested;
 
   //! \}
@@ -186,10 +194,14 @@ struct GSubContextPrimary : public GSubContext {
 
     // Initialize GSubContextPrimary.
     _gbd = gbd;
+    _size_limit = bl_max<size_t>(gbd->size > SIZE_MAX / kMaxGrowthFactor ? SIZE_MAX : gbd->size * kMaxGrowthFactor, kMinSizeLimit);
     _nested.init(gbd);
   }
 
   BL_INLINE void done() noexcept {
+    // The work buffer could have been reallocated (and flipped) by a lookup.
+    _gbd->content = _work_buffer.glyph_data;
+    _gbd->info_data = _work_buffer.info_data;
     _gbd->size = _work_buffer.size;
   }
 
@@ -202,6 +214,9 @@ struct GSubContextPrimary : public GSubContext {
     GSubContextPrimary* self = static_cast<GSubContextPrimary*>(self_);
     BLGlyphBufferPrivateImpl* gbd = self->_gbd;
 
+    if (BL_UNLIKELY(size > self->_size_limit))
+      return bl_make_error(BL_ERROR_GLYPH_SUBSTITUTION_TOO_LARGE);
+
     BL_PROPAGATE(gbd->ensure_buffer(1, 0, size));
     gbd->get_glyph_data_ptrs(1, &self->_work_buffer.glyph_data, &self->_work_buffer.info_data);
     self->_work_buffer.size = size;
-- 
2.43.0


From 6b6e25bd75fd2969c3ef43db48fa6a4eed29f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 134/178] fix: context and reverse chaining lookups read
 outside of their tables and of the glyph buffer

---
 blend2d/opentype/otlayout.cpp | 53 +++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 599fe49..0931250 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -604,9 +604,6 @@ static BL_NOINLINE bool validate_coverage_tables(
 
   for (uint32_t i = 0; i < count; i++) {
     uint32_t offset = offsets[i].value();
-    if (!offset)
-      continue;
-
     if (!offset_range.contains(offset))
       return validator.fail("%s.%s[%u] offset (%u) is out of range [%u:%u]", table_name, coverage_name, i, offset, offset_range.start, offset_range.end);
 
@@ -699,14 +696,14 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
       Table<SequenceRule> rule = rule_set.sub_table(rule_offset);
       uint32_t glyph_count = rule->glyph_count();
       uint32_t lookup_record_count = rule->lookup_record_count();
-      uint32_t rule_table_size = 4u + (lookup_record_count + glyph_count - 1) * 2u;
-
-      if (!rule.fits(rule_table_size))
-        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
 
       if (glyph_count < 2)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid glyph_count (%u)", table_name, i, rule_index, glyph_count);
 
+      uint32_t rule_table_size = 4u + (glyph_count - 1u) * 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
+      if (!rule.fits(rule_table_size))
+        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
+
       if (!lookup_record_count)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid lookup_record_count (%u)", table_name, i, rule_index, lookup_record_count);
 
@@ -880,6 +877,10 @@ static BL_INLINE bool match_sequence_format1(Table<GSubGPosTable::SequenceContex
   uint32_t rule_set_offset = table->rule_set_offsets.array()[coverage_index].value();
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
+  // Null offset means that there are no rules.
+  if (!rule_set_offset)
+    return false;
+
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
   uint32_t rule_count = rule_offsets->count();
   BL_ASSERT_VALIDATED(rule_count && rule_set_offset + rule_count * 2u <= table.size - 2u);
@@ -913,6 +914,10 @@ static BL_INLINE bool match_sequence_format2(
   uint32_t rule_set_offset = table->rule_set_offsets.array()[class_index].value();
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
+  // Null offset means that there are no rules.
+  if (!rule_set_offset)
+    return false;
+
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
   uint32_t rule_count = rule_offsets->count();
   BL_ASSERT_VALIDATED(rule_count && rule_set_offset + rule_count * 2u <= table.size - 2u);
@@ -1020,7 +1025,7 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
 
       // Verify there is a room for `lookahead_sequence + lookup_record_count`.
       uint32_t lookahead_glyph_count = rule.readU16(lookahead_offset);
-      uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+      uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
       if (!rule.fits(lookup_record_offset + 2u))
         return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, lookup_record_offset + 2u);
 
@@ -1028,6 +1033,10 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
       if (!lookup_record_count)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid lookup_record_count (%u)", table_name, i, rule_index, lookup_record_count);
 
+      uint32_t rule_table_size = lookup_record_offset + 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
+      if (!rule.fits(rule_table_size))
+        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
+
       const GSubGPosTable::SequenceLookupRecord* lookup_record_array = PtrOps::offset<const GSubGPosTable::SequenceLookupRecord>(rule.data, lookup_record_offset + 2u);
       if (!validate_sequence_lookup_record_array(validator, lookup_record_array, lookup_record_count))
         return false;
@@ -1043,10 +1052,10 @@ static BL_INLINE bool validate_chained_context_format1(ValidationContext& valida
 
 static BL_NOINLINE bool validate_chained_context_format2(ValidationContext& validator, Table<GSubGPosTable::ChainedSequenceContext2> table, const char* table_name) noexcept {
   if (!table.fits())
-    return validator.invalid_table_size(table_name, table.size, GSubGPosTable::SequenceContext2::kBaseSize);
+    return validator.invalid_table_size(table_name, table.size, GSubGPosTable::ChainedSequenceContext2::kBaseSize);
 
   uint32_t rule_set_count = table->rule_set_offsets.count();
-  uint32_t header_size = GSubGPosTable::SequenceContext2::kBaseSize + rule_set_count * 2u;
+  uint32_t header_size = GSubGPosTable::ChainedSequenceContext2::kBaseSize + rule_set_count * 2u;
   OffsetRange offset_range{header_size, table.size};
 
   if (!table.fits(header_size))
@@ -1088,6 +1097,9 @@ static BL_NOINLINE bool validate_chained_context_format3(ValidationContext& vali
     return validator.invalid_table_size(table_name, table.size, input_glyph_count_offset + 2u);
 
   uint32_t input_glyph_count = table.readU16(input_glyph_count_offset);
+  if (!input_glyph_count)
+    return validator.fail("%s has no input glyphs", table_name);
+
   uint32_t lookahead_glyph_count_offset = input_glyph_count_offset + 2u + input_glyph_count * 2u;
 
   if (!table.fits(lookahead_glyph_count_offset + 2u))
@@ -1270,7 +1282,7 @@ static BL_INLINE bool match_chained_sequence_rule_format1(
     if (!match_ahead_glyphs_format1(mCtx.ahead_glyph_ptr + input_glyph_count - 1u, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count))
       continue;
 
-    uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+    uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
     BL_ASSERT_VALIDATED(rule.fits(lookup_record_offset + 2u));
 
     uint32_t lookup_record_count = rule.readU16(lookup_record_offset);
@@ -1322,7 +1334,7 @@ static BL_INLINE bool match_chained_sequence_rule_format2(
     if (!match_ahead_glyphs_format2<kCD3Fmt>(mCtx.ahead_glyph_ptr + input_glyph_count - 1u, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count, cd3_it))
       continue;
 
-    uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+    uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
     BL_ASSERT_VALIDATED(rule.fits(lookup_record_offset + 2u));
 
     uint32_t lookup_record_count = rule.readU16(lookup_record_offset);
@@ -1353,6 +1365,10 @@ static BL_INLINE bool match_chained_sequence_format1(
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
+  // Null offset means that there are no rules.
+  if (!rule_set_offset)
+    return false;
+
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
   uint32_t rule_count = rule_offsets->count();
   BL_ASSERT_VALIDATED(rule_count && rule_set_offset + rule_count * 2u <= mCtx.table.size - 2u);
@@ -1378,6 +1394,10 @@ static BL_INLINE bool match_chained_sequence_format2(
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
+  // Null offset means that there are no rules.
+  if (!rule_set_offset)
+    return false;
+
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
   uint32_t rule_count = rule_offsets->count();
   BL_ASSERT_VALIDATED(rule_count && rule_set_offset + rule_count * 2u <= mCtx.table.size - 2u);
@@ -2258,11 +2278,14 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type8_format1(GSubConte
   uint32_t subst_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
   BL_ASSERT_VALIDATED(table.fits(subst_offset + 2u));
 
+  // Bail if the buffer is too small for this chained context substitution.
+  if (ctx.size() <= size_t(backtrack_glyph_count) + lookahead_glyph_count)
+    return BL_SUCCESS;
+
   // Restrict scope in a way so we would never underflow/overflow glyph buffer when matching backtrack/lookahead glyphs.
-  scope.intersect(backtrack_glyph_count, ctx.size() - lookahead_glyph_count - 1u);
+  scope.intersect(backtrack_glyph_count, ctx.size() - lookahead_glyph_count);
 
-  // Bail if the buffer or the scope is too small for this chained context substitution.
-  if (ctx.size() < lookahead_glyph_count || scope.index() >= scope.end())
+  if (scope.index() >= scope.end())
     return BL_SUCCESS;
 
   uint32_t subst_glyph_count = table.readU16(subst_offset);
-- 
2.43.0


From df752c6b07bc7fc8dbd86d2354750e9cca3a4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 135/178] fix: nested composite glyphs took exponential time

---
 blend2d/opentype/otglyf.cpp         | 4 ++++
 blend2d/opentype/otglyf_p.h         | 7 ++++++-
 blend2d/opentype/otglyfsimdimpl_p.h | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 8b1e97e..7188aa2 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -196,6 +196,7 @@ static BLResult BL_CDECL get_glyph_outlines(
   const uint8_t* gPtr = nullptr;
   size_t remaining_size = 0;
   size_t compound_level = 0;
+  size_t component_count = 0;
 
   // Only matrix and compound_flags are important in the root entry.
   CompoundEntry compound_data[CompoundEntry::kMaxLevel];
@@ -499,6 +500,9 @@ static BLResult BL_CDECL get_glyph_outlines(
 
 ContinueCompound:
         {
+          if (BL_UNLIKELY(++component_count > CompoundEntry::kMaxComponents))
+            goto InvalidData;
+
           uint32_t flags;
           int arg1, arg2;
           OverflowFlag of{};
diff --git a/blend2d/opentype/otglyf_p.h b/blend2d/opentype/otglyf_p.h
index fd49901..27df421 100644
--- a/blend2d/opentype/otglyf_p.h
+++ b/blend2d/opentype/otglyf_p.h
@@ -123,7 +123,12 @@ namespace {
 
 // Used by get_glyph_outline() implementation.
 struct CompoundEntry {
-  enum : uint32_t { kMaxLevel = 16 };
+  enum : uint32_t {
+    //! Maximum nesting of composite glyphs.
+    kMaxLevel = 16,
+    //! Maximum number of components of a glyph including nested ones, which would otherwise grow exponentially.
+    kMaxComponents = 4096
+  };
 
   const uint8_t* gPtr;
   size_t remaining_size;
diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index 89e7412..ee0aea6 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -217,6 +217,7 @@ static BL_INLINE BLResult get_glyph_outlines_simd_impl(
   const uint8_t* gPtr = nullptr;
   size_t remaining_size = 0;
   size_t compound_level = 0;
+  size_t component_count = 0;
 
   // Only matrix and compound_flags are important in the root entry.
   CompoundEntry compound_data[CompoundEntry::kMaxLevel];
@@ -1003,6 +1004,9 @@ EmitSpline3Continue:
 
 ContinueCompound:
         {
+          if (BL_UNLIKELY(++component_count > CompoundEntry::kMaxComponents))
+            goto InvalidData;
+
           uint32_t flags;
           int arg1, arg2;
           OverflowFlag of{};
-- 
2.43.0


From cec196a0150dd88d80f0b67858781d263f3286c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 136/178] fix: GPOS pair positioning positioned the second
 glyph of a pair again as the first glyph of the next pair

---
 blend2d/opentype/otlayout.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 0931250..068228f 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2746,7 +2746,13 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format1(GPosConte
         if (p) {
           p++;
           if (value_format1) p = apply_gposValue(p, value_format1, &placement_data[i + 0]);
-          if (value_format2) p = apply_gposValue(p, value_format2, &placement_data[i + 1]);
+          if (value_format2) {
+            p = apply_gposValue(p, value_format2, &placement_data[i + 1]);
+
+            // The second glyph of the pair has been positioned, so the next pair starts with the glyph that follows it.
+            if (scope.is_range() && ++i < end)
+              right_glyph_id = glyph_data[i + 1];
+          }
         }
       }
     }
@@ -2805,7 +2811,13 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format2(GPosConte
         if (c_index < value_record_count) {
           const Int16* p = PtrOps::offset<const Int16>(value_base_ptr, c_index * value_record_size);
           if (value1_format) p = apply_gposValue(p, value1_format, &placement_data[i + 0]);
-          if (value2_format) p = apply_gposValue(p, value2_format, &placement_data[i + 1]);
+          if (value2_format) {
+            p = apply_gposValue(p, value2_format, &placement_data[i + 1]);
+
+            // The second glyph of the pair has been positioned, so the next pair starts with the glyph that follows it.
+            if (scope.is_range() && ++i < end)
+              right_glyph_id = glyph_data[i + 1];
+          }
         }
       }
     }
-- 
2.43.0


From b39894fbe59946cf2a98083044640721841cf714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 137/178] fix: GPOS class pair positioning used a record of
 another class when the second class was out of range

---
 blend2d/opentype/otlayout.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 068228f..5fcd0c4 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2787,8 +2787,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format2(GPosConte
 
   uint32_t class1_count = table->class1_count();
   uint32_t class2_count = table->class2_count();
-  uint32_t value_record_count = class1_count * class2_count;
-  BL_ASSERT_VALIDATED(table.fits(GPosTable::PairAdjustment2::kBaseSize + uint64_t(value_record_count) * uint64_t(value_record_size)));
+  BL_ASSERT_VALIDATED(table.fits(GPosTable::PairAdjustment2::kBaseSize + uint64_t(class1_count) * uint64_t(class2_count) * uint64_t(value_record_size)));
 
   const uint8_t* value_base_ptr = table.data + GPosTable::PairAdjustment2::kBaseSize;
 
@@ -2808,7 +2807,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format2(GPosConte
         uint32_t c2 = cd2_it.class_of_glyph<kCD2Fmt>(right_glyph_id);
         uint32_t c_index = c1 * class2_count + c2;
 
-        if (c_index < value_record_count) {
+        if (c1 < class1_count && c2 < class2_count) {
           const Int16* p = PtrOps::offset<const Int16>(value_base_ptr, c_index * value_record_size);
           if (value1_format) p = apply_gposValue(p, value1_format, &placement_data[i + 0]);
           if (value2_format) {
-- 
2.43.0


From a9d5cf6f239258e75706c174b7076460d6ff457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 138/178] fix: kern sub-tables of format 2 and 3 were read as a
 list of pairs, out of bounds

---
 blend2d/opentype/otkern_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otkern_p.h b/blend2d/opentype/otkern_p.h
index caf73c8..16fbc01 100644
--- a/blend2d/opentype/otkern_p.h
+++ b/blend2d/opentype/otkern_p.h
@@ -173,11 +173,11 @@ struct KernGroup {
   }
 
   static BL_INLINE KernGroup make_referenced(uint32_t format, uint32_t flags, uintptr_t data_offset, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6), { data_offset } };
+    return KernGroup { flags | (format << 4) | (data_size << 6), { data_offset } };
   }
 
   static BL_INLINE KernGroup make_synthesized(uint32_t format, uint32_t flags, void* data_ptr, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
+    return KernGroup { flags | (format << 4) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
   }
 };
 
-- 
2.43.0


From c4f0cacbe1179057db2f5c7c4a5ab491d24bc688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 139/178] fix: kern sub-tables of format 3 were ignored when
 followed by padding

---
 blend2d/opentype/otkern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index fa1a0b7..dad4e07 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -295,7 +295,7 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
   uint32_t right_class_count = sub_table->right_class_count();
 
   uint32_t required_size = ot_face_impl->kern.header_size + uint32_t(sizeof(Format3)) + kern_value_count * 2u + glyph_count * 2u + left_class_count * right_class_count;
-  if (BL_UNLIKELY(required_size < data_size))
+  if (BL_UNLIKELY(required_size > data_size))
     return 0;
 
   const FWord* value_table = PtrOps::offset<const FWord>(sub_table, sizeof(Format3));
-- 
2.43.0


From 8fee1f053c6e098407e7dec468dd9a6ef6a963e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 140/178] fix: legacy kerning turned offsets provided by GPOS
 into advances

---
 blend2d/opentype/otkern.cpp | 70 +++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index dad4e07..57e64fe 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -198,7 +198,7 @@ static BL_INLINE int32_t combine_kern_value(int32_t orig_val, int32_t new_val, i
 }
 
 // Kern SubTable Format 0 - Ordered list of kerning pairs.
-static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count, int32_t mask) noexcept {
+static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, const uint32_t* glyph_data, int32_t* kern_values, size_t count, int32_t mask) noexcept {
   bl_unused(ot_face_impl);
 
   // Format0's `data_ptr` is not a pointer to the start of the table, instead it points to kerning pairs that are
@@ -217,9 +217,9 @@ static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, cons
       continue;
 
     int32_t value = pair_data[index].value();
-    int32_t combined = combine_kern_value(placement_data[i].placement.x, value, mask);
+    int32_t combined = combine_kern_value(kern_values[i], value, mask);
 
-    placement_data[i].placement.x = combined;
+    kern_values[i] = combined;
     all_combined |= combined;
   }
 
@@ -227,7 +227,7 @@ static BL_INLINE int32_t apply_kern_format0(const OTFaceImpl* ot_face_impl, cons
 }
 
 // Kern SubTable Format 2 - Simple NxM array of kerning values.
-static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count, int32_t mask) noexcept {
+static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, const uint32_t* glyph_data, int32_t* kern_values, size_t count, int32_t mask) noexcept {
   typedef KernTable::Format2 Format2;
   typedef Format2::ClassTable ClassTable;
 
@@ -275,9 +275,9 @@ static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, cons
       continue;
 
     int32_t value = PtrOps::offset<const FWord>(data_ptr, value_offset)->value();
-    int32_t combined = combine_kern_value(placement_data[i].placement.x, value, mask);
+    int32_t combined = combine_kern_value(kern_values[i], value, mask);
 
-    placement_data[i].placement.x = combined;
+    kern_values[i] = combined;
     all_combined |= combined;
   }
 
@@ -285,7 +285,7 @@ static BL_INLINE int32_t apply_kern_format2(const OTFaceImpl* ot_face_impl, cons
 }
 
 // Kern SubTable Format 3 - Simple NxM array of kerning indexes.
-static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count, int32_t mask) noexcept {
+static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, const void* data_ptr, size_t data_size, const uint32_t* glyph_data, int32_t* kern_values, size_t count, int32_t mask) noexcept {
   typedef KernTable::Format3 Format3;
 
   const Format3* sub_table = PtrOps::offset<const Format3>(data_ptr, ot_face_impl->kern.header_size);
@@ -322,9 +322,9 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
       continue;
 
     int32_t value = value_table[value_index].value();
-    int32_t combined = combine_kern_value(placement_data[i].placement.x, value, mask);
+    int32_t combined = combine_kern_value(kern_values[i], value, mask);
 
-    placement_data[i].placement.x = combined;
+    kern_values[i] = combined;
     all_combined |= combined;
   }
 
@@ -332,12 +332,9 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
 }
 
 // Applies the data calculated by apply_kern_formatN.
-static BL_INLINE void finish_kern(const OTFaceImpl* ot_face_impl, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count) noexcept {
-  bl_unused(ot_face_impl, glyph_data);
-  for (size_t i = 1; i < count; i++) {
-    placement_data[i - 1].advance += placement_data[i].placement;
-    placement_data[i].placement.reset();
-  }
+static BL_INLINE void finish_kern(const int32_t* kern_values, BLGlyphPlacement* placement_data, size_t count) noexcept {
+  for (size_t i = 1; i < count; i++)
+    placement_data[i - 1].advance.x += kern_values[i];
 }
 
 static BLResult BL_CDECL apply_kern(const BLFontFaceImpl* face_impl, uint32_t* glyph_data, BLGlyphPlacement* placement_data, size_t count) noexcept {
@@ -351,28 +348,39 @@ static BLResult BL_CDECL apply_kern(const BLFontFaceImpl* face_impl, uint32_t* g
   const KernGroup* kern_groups = collection.groups.data();
   size_t group_count = collection.groups.size();
 
-  int32_t all_combined = 0;
+  // Kerning values of all groups are combined separately from the placement data, because the placement data could
+  // already contain offsets provided by 'GPOS' table. Runs are processed in chunks that share their border glyphs.
+  constexpr size_t kChunkSize = 256;
+  int32_t kern_values[kChunkSize];
+
+  for (size_t chunk_index = 0; chunk_index < count - 1u; chunk_index += kChunkSize - 1u) {
+    size_t chunk_size = bl_min<size_t>(count - chunk_index, kChunkSize);
+    const uint32_t* chunk_glyphs = glyph_data + chunk_index;
+
+    int32_t all_combined = 0;
+    memset(kern_values, 0, chunk_size * sizeof(int32_t));
 
-  for (size_t group_index = 0; group_index < group_count; group_index++) {
-    const KernGroup& kern_group = kern_groups[group_index];
+    for (size_t group_index = 0; group_index < group_count; group_index++) {
+      const KernGroup& kern_group = kern_groups[group_index];
 
-    const void* data_ptr = kern_group.calc_data_ptr(base_ptr);
-    size_t data_size = kern_group.data_size();
+      const void* data_ptr = kern_group.calc_data_ptr(base_ptr);
+      size_t data_size = kern_group.data_size();
 
-    uint32_t format = kern_group.format();
-    int32_t mask = mask_from_kern_group_flags(kern_group.flags());
+      uint32_t format = kern_group.format();
+      int32_t mask = mask_from_kern_group_flags(kern_group.flags());
 
-    switch (format) {
-      case 0: all_combined |= apply_kern_format0(ot_face_impl, data_ptr, data_size, glyph_data, placement_data, count, mask); break;
-      case 2: all_combined |= apply_kern_format2(ot_face_impl, data_ptr, data_size, glyph_data, placement_data, count, mask); break;
-      case 3: all_combined |= apply_kern_format3(ot_face_impl, data_ptr, data_size, glyph_data, placement_data, count, mask); break;
+      switch (format) {
+        case 0: all_combined |= apply_kern_format0(ot_face_impl, data_ptr, data_size, chunk_glyphs, kern_values, chunk_size, mask); break;
+        case 2: all_combined |= apply_kern_format2(ot_face_impl, data_ptr, data_size, chunk_glyphs, kern_values, chunk_size, mask); break;
+        case 3: all_combined |= apply_kern_format3(ot_face_impl, data_ptr, data_size, chunk_glyphs, kern_values, chunk_size, mask); break;
+      }
     }
-  }
 
-  // Only finish kerning if we actually did something, if no kerning pair was found or all kerning pairs were
-  // zero then there is nothing to do.
-  if (all_combined)
-    finish_kern(ot_face_impl, glyph_data, placement_data, count);
+    // Only finish kerning if we actually did something, if no kerning pair was found or all kerning pairs were
+    // zero then there is nothing to do.
+    if (all_combined)
+      finish_kern(kern_values, placement_data + chunk_index, chunk_size);
+  }
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From b2e365022d64281fa52b3a7ecce06f420ff9fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 141/178] fix: GPOS vertical advances moved glyphs of a
 horizontal layout off the baseline

---
 blend2d/opentype/otlayout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 5fcd0c4..b1f3466 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2507,7 +2507,7 @@ static BL_INLINE const Int16* apply_gposValue(const Int16* p, uint32_t value_for
   if (value_format & GPosTable::kValueXPlacement      ) { v = p->value(); p++; glyph_placement->placement.x += v; }
   if (value_format & GPosTable::kValueYPlacement      ) { v = p->value(); p++; glyph_placement->placement.y += v; }
   if (value_format & GPosTable::kValueXAdvance        ) { v = p->value(); p++; glyph_placement->advance.x += v; }
-  if (value_format & GPosTable::kValueYAdvance        ) { v = p->value(); p++; glyph_placement->advance.y += v; }
+  if (value_format & GPosTable::kValueYAdvance        ) { p++; } // Only used by a vertical layout.
   if (value_format & GPosTable::kValueXPlacementDevice) { v = p->value(); p++; }
   if (value_format & GPosTable::kValueYPlacementDevice) { v = p->value(); p++; }
   if (value_format & GPosTable::kValueXAdvanceDevice  ) { v = p->value(); p++; }
-- 
2.43.0


From de6315f83221aaadd41a9b0fcacd0096dd70286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 142/178] fix: the required feature of a language system was
 not applied

---
 blend2d/opentype/otlayout.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b1f3466..bb67d57 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3739,7 +3739,9 @@ static BL_INLINE void populate_gsub_gpoos_lookup_bits(
   for (;;) {
     if (BL_LIKELY(feature_index < feature_count)) {
       BLTag feature_tag = feature_list_offsets->array()[feature_index].tag();
-      if (FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
+      bool is_required = i == uint32_t(0) - 1u;
+
+      if (is_required || FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
         uint32_t feature_offset = feature_list_offsets->array()[feature_index].offset();
         Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table(feature_offset));
 
-- 
2.43.0


From 61a96da08cc1e635e12e0f8f55ad0b840e8f37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 143/178] fix: asynchronous rendering of a glyph run without
 placement data dereferenced a null pointer

---
 blend2d/raster/rastercontext.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index c353930..2dba431 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2562,19 +2562,32 @@ static BL_INLINE BLResult enqueue_fill_or_stroke_glyph_run(
   size_t placement_data_size = IntOps::align_up(size * sizeof(BLGlyphPlacementRawData), WorkerManager::kAllocatorAlignment);
 
   uint32_t* glyph_data = ctx_impl->worker_mgr()._allocator.template allocNoAlignT<uint32_t>(glyph_data_size);
-  BLGlyphPlacementRawData* placement_data = ctx_impl->worker_mgr()._allocator.template allocNoAlignT<BLGlyphPlacementRawData>(placement_data_size);
+  BLGlyphPlacementRawData* placement_data = nullptr;
 
-  if (BL_UNLIKELY(!glyph_data || !placement_data))
+  if (BL_UNLIKELY(!glyph_data))
     return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
   BLGlyphRunIterator it(*glyph_run);
   uint32_t* dst_glyph_data = glyph_data;
-  BLGlyphPlacementRawData* dst_placement_data = placement_data;
 
-  while (!it.at_end()) {
-    *dst_glyph_data++ = it.glyph_id();
-    *dst_placement_data++ = it.placement<BLGlyphPlacementRawData>();
-    it.advance();
+  // Placement data is optional.
+  if (it.has_placement()) {
+    placement_data = ctx_impl->worker_mgr()._allocator.template allocNoAlignT<BLGlyphPlacementRawData>(placement_data_size);
+    if (BL_UNLIKELY(!placement_data))
+      return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+
+    BLGlyphPlacementRawData* dst_placement_data = placement_data;
+    while (!it.at_end()) {
+      *dst_glyph_data++ = it.glyph_id();
+      *dst_placement_data++ = it.placement<BLGlyphPlacementRawData>();
+      it.advance();
+    }
+  }
+  else {
+    while (!it.at_end()) {
+      *dst_glyph_data++ = it.glyph_id();
+      it.advance();
+    }
   }
 
   BLPoint origin_fixed = ctx_impl->final_transform_fixed().map_point(*origin);
-- 
2.43.0


From bb66c89b510c86034274ff0676902e98bdb65a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 144/178] fix: Keep the invalid text flag of a glyph buffer

---
 blend2d/core/glyphbuffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d528e41..50be004 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -122,6 +122,7 @@ template<typename Reader, typename CharType>
 static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyphBufferPrivateImpl* d, const CharType* src, size_t size) noexcept {
   Reader reader(src, size);
 
+  uint32_t flags = 0;
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
 
@@ -137,12 +138,12 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
       continue;
 
     text_data[-1] = bl::Unicode::kCharReplacement;
-    d->flags |= BL_GLYPH_RUN_FLAG_INVALID_TEXT;
+    flags |= BL_GLYPH_RUN_FLAG_INVALID_TEXT;
     reader.skip_one_unit();
   }
 
   d->size = (size_t)(text_data - d->content);
-  d->flags = 0;
+  d->flags = flags;
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
-- 
2.43.0


From 655c7da6b638af02aee52da3bf1b19128a466986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 145/178] fix: Use the right glyph advance in
 BLGlyphBuffer::set_glyphs()

---
 blend2d/core/glyphbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index 50be004..b8cdf64 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -283,7 +283,7 @@ BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs(BLGlyphBufferCore* self, const u
   BL_PROPAGATE(bl_glyph_buffer_ensure_data(self, &d));
   BL_PROPAGATE(d->ensure_buffer(0, 0, size));
 
-  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint16_t)));
+  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint32_t)));
 }
 
 BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs_from_struct(BLGlyphBufferCore* self, const void* glyph_data, size_t size, size_t glyph_id_size, intptr_t glyph_id_advance) noexcept {
-- 
2.43.0


From 6bef1d115ea11a7f4a9c8db2e76bf225d7b71dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 146/178] fix: Discard glyph placements when the content of a
 glyph buffer is replaced

---
 blend2d/core/glyphbuffer.cpp | 3 +++
 blend2d/core/glyphbuffer_p.h | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index b8cdf64..5a21c64 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -97,6 +97,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_glyph_ids(BLGlyphBuf
 
   d->size = size;
   d->flags = 0;
+  d->reset_placement();
   return BL_SUCCESS;
 }
 
@@ -111,6 +112,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_latin1_text(BLGlyphB
 
   d->size = size;
   d->flags = 0;
+  d->reset_placement();
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
@@ -144,6 +146,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
 
   d->size = (size_t)(text_data - d->content);
   d->flags = flags;
+  d->reset_placement();
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
diff --git a/blend2d/core/glyphbuffer_p.h b/blend2d/core/glyphbuffer_p.h
index 7dbebfc..f15a514 100644
--- a/blend2d/core/glyphbuffer_p.h
+++ b/blend2d/core/glyphbuffer_p.h
@@ -82,11 +82,16 @@ struct BLGlyphBufferPrivateImpl : public BLGlyphBufferImpl {
     buffer[1] = nullptr;
   }
 
+  //! Discards glyph placements, which don't describe the content anymore when it's replaced.
+  BL_INLINE void reset_placement() noexcept {
+    glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
+    placement_data = nullptr;
+  }
+
   BL_INLINE void clear() noexcept {
     size = 0;
-    glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
     glyph_run.flags = 0;
-    placement_data = nullptr;
+    reset_placement();
     get_glyph_data_ptrs(0, &content, &info_data);
   }
 
-- 
2.43.0


From 201a7d9e8f7a5752f72786a30a22792d425f666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 147/178] fix: Discard glyph placements when glyphs of a glyph
 buffer are substituted

---
 blend2d/opentype/otlayoutcontext_p.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/opentype/otlayoutcontext_p.h b/blend2d/opentype/otlayoutcontext_p.h
index b85ed62..655135a 100644
--- a/blend2d/opentype/otlayoutcontext_p.h
+++ b/blend2d/opentype/otlayoutcontext_p.h
@@ -203,6 +203,10 @@ struct GSubContextPrimary : public GSubContext {
     _gbd->content = _work_buffer.glyph_data;
     _gbd->info_data = _work_buffer.info_data;
     _gbd->size = _work_buffer.size;
+
+    // Glyph placements don't describe substituted glyphs and their buffer could have been flipped as well.
+    _gbd->flags &= ~uint32_t(BL_GLYPH_BUFFER_GLYPH_ADVANCES);
+    _gbd->reset_placement();
   }
 
   //! \}
-- 
2.43.0


From b15636f74660647ee6c42b3937f70639136fe25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 148/178] fix: Shaping and positioning glyphs with an
 uninitialized font read beyond its face

---
 blend2d/core/font.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index d5894de..9d9afc2 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -409,6 +409,9 @@ BL_API_IMPL BLResult bl_font_shape(const BLFontCore* self, BLGlyphBufferCore* gb
   using namespace bl::FontInternal;
   BL_ASSERT(self->_d.is_font());
 
+  if (!bl_glyph_buffer_get_impl(gb)->size)
+    return BL_SUCCESS;
+
   BL_PROPAGATE(bl_font_map_text_to_glyphs(self, gb, nullptr));
 
   bl::OpenType::OTFaceImpl* ot_face_impl = bl::FontFaceInternal::get_impl<bl::OpenType::OTFaceImpl>(&self->dcast().face());
@@ -462,9 +465,18 @@ BL_API_IMPL BLResult bl_font_position_glyphs(const BLFontCore* self, BLGlyphBuff
   if (BL_UNLIKELY(gb_impl->flags & BL_GLYPH_RUN_FLAG_UCS4_CONTENT))
     return bl_make_error(BL_ERROR_INVALID_STATE);
 
+  if (BL_UNLIKELY(self->dcast().face().is_empty()))
+    return bl_make_error(BL_ERROR_FONT_NOT_INITIALIZED);
+
   if (!(gb_impl->flags & BL_GLYPH_BUFFER_GLYPH_ADVANCES)) {
     BL_PROPAGATE(gb_impl->ensure_placement());
-    face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+
+    BLResult result = face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+    if (BL_UNLIKELY(result != BL_SUCCESS)) {
+      gb_impl->reset_placement();
+      return result;
+    }
+
     gb_impl->glyph_run.placement_type = uint8_t(BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET);
     gb_impl->flags |= BL_GLYPH_BUFFER_GLYPH_ADVANCES;
   }
-- 
2.43.0


From 75d81afd2f387bc57415ede5baf32b2228ade4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 149/178] fix: BLFontFeatureSettings::has_value() didn't find
 features stored inline with a value

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 7ccd6f2..982411d 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -467,7 +467,7 @@ BL_API_IMPL bool bl_font_feature_settings_has_value(const BLFontFeatureSettingsC
     }
     else {
       uint32_t dummy_index;
-      return find_sso_fat_tag(self, feature_info.bit_id, &dummy_index);
+      return find_sso_fat_tag(self, id, &dummy_index);
     }
   }
 
-- 
2.43.0


From 41efd39df75bb841c59e66b93fd1e230d175418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 150/178] fix: Feature values from 16 to 255 don't fit the
 inline representation of BLFontFeatureSettings

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 982411d..ae5a2cc 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -525,7 +525,7 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
           return BL_SUCCESS;
         }
       }
-      else if (value <= kSSOFatFeatureTagBitMask) {
+      else if (value <= kSSOFatFeatureValueBitMask) {
         uint32_t index;
         if (find_sso_fat_tag(self, feature_id, &index)) {
           update_sso_fat_value(self, index, value);
-- 
2.43.0


From c0c1e0651f706fdb2f6c23d94b7c8ff51d9699e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 151/178] fix: Removing an inline feature lost values of the
 features after it

---
 blend2d/core/fontfeaturesettings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index ae5a2cc..b89c946 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -114,7 +114,7 @@ static BL_INLINE void remove_sso_fat_tag(BLFontFeatureSettingsCore* self, uint32
   uint32_t vals_lsb_mask = ((1u << val_offset) - 1u);
 
   tags = (tags & tags_lsb_mask) | ((tags >> kSSOFatFeatureTagBitCount) & ~tags_lsb_mask) | (kSSOInvalidFatFeatureId << ((kSSOFatFeatureCount - 1) * kSSOFatFeatureTagBitCount));
-  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~tags_lsb_mask);
+  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~vals_lsb_mask);
 
   self->_d.u32_data[2] = tags;
   self->_d.info.bits = ((self->_d.info.bits & ~kValueDataMask) - (1u << BL_OBJECT_INFO_A_SHIFT)) | (vals & kValueDataMask);
-- 
2.43.0


From a37ceb72a528590e1f8a5d3155c1083b3fd9d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 152/178] fix: Boolean features accepted any value when feature
 settings were dynamic

---
 blend2d/core/fontfeaturesettings.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index b89c946..850dd75 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -503,6 +503,10 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
   uint32_t feature_id = bl::FontTagData::feature_tag_to_id(feature_tag);
   bool can_modify = true;
 
+  // Some features can only be disabled or enabled, regardless of the representation.
+  if (value > 1u && feature_id != bl::FontTagData::kInvalidId && bl::FontTagData::feature_info_table[feature_id].has_bit_id())
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   // SSO Mode
   // --------
 
@@ -512,9 +516,6 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
     if (feature_id != bl::FontTagData::kInvalidId) {
       FeatureInfo feature_info = bl::FontTagData::feature_info_table[feature_id];
       if (feature_info.has_bit_id()) {
-        if (value > 1u)
-          return bl_make_error(BL_ERROR_INVALID_VALUE);
-
         uint32_t feature_bit_id = feature_info.bit_id;
         if (has_sso_bit_tag(self, feature_bit_id)) {
           update_sso_bit_value(self, feature_bit_id, value);
-- 
2.43.0


From be1cfe29928b975a1e79f687a36a8e7d2c9cc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:49 +0000
Subject: [PATCH 153/178] fix: The random generator didn't follow xorshift128+
 and didn't have its documented full period

---
 blend2d/core/random_p.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/random_p.h b/blend2d/core/random_p.h
index 887f1f1..51404a2 100644
--- a/blend2d/core/random_p.h
+++ b/blend2d/core/random_p.h
@@ -52,9 +52,8 @@ static BL_INLINE uint64_t next_uint64(BLRandom* self) noexcept {
   uint64_t y = self->data[1];
 
   x ^= x << kStep1Shift;
-  y ^= y >> kStep3Shift;
   x ^= x >> kStep2Shift;
-  x ^= y;
+  x ^= y ^ (y >> kStep3Shift);
 
   self->data[0] = y;
   self->data[1] = x;
@@ -78,9 +77,8 @@ static BL_INLINE SIMD::Vec2xU64 next_uint64AsI128(BLRandom* self) noexcept {
   Vec2xU64 y = loada_64<Vec2xU64>(&self->data[1]);
 
   x = x ^ (x << Shift<kStep1Shift>{});
-  y = y ^ (y >> Shift<kStep3Shift>{});
   x = x ^ (x >> Shift<kStep2Shift>{});
-  x = x ^ y;
+  x = x ^ (y ^ (y >> Shift<kStep3Shift>{}));
 
   storea_64(&self->data[0], y);
   storea_64(&self->data[1], x);
-- 
2.43.0


From ae128dfa1d29fa7899a46857462cb19e7e474793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 154/178] fix: modification time of a file mixed seconds with
 microseconds

---
 blend2d/core/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 13d3f15..bfa887c 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -579,7 +579,7 @@ static BL_INLINE int64_t unix_micro_from_file_time(const T& t) noexcept {
 #if defined(BL_FS_STAT_MTIMESPEC)
 template<typename T>
 static BL_INLINE int64_t unix_micro_from_time_spec(const T& ts) noexcept {
-  return int64_t(uint64_t(ts.tv_sec) + (uint32_t(ts.tv_nsec) / 1000u));
+  return int64_t(uint64_t(ts.tv_sec) * 1000000u + (uint32_t(ts.tv_nsec) / 1000u));
 }
 #endif
 
-- 
2.43.0


From 5db098877c53f8ab5b8356af6a2af17e8e980320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:19 +0000
Subject: [PATCH 155/178] fix: a short read or write of a file made the
 following one use the beginning of the buffer again

---
 blend2d/core/filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index bfa887c..1c2b492 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -743,7 +743,7 @@ BL_API_IMPL BLResult bl_file_read(BLFileCore* self, void* buffer, size_t n, size
   size_t bytes_read = 0;
 
   for (;;) {
-    SignedSizeT result = read(fd, buffer, n - bytes_read);
+    SignedSizeT result = read(fd, static_cast<uint8_t*>(buffer) + bytes_read, n - bytes_read);
     if (result < 0) {
       int e = errno;
       *bytes_read_out = bytes_read;
@@ -779,7 +779,7 @@ BL_API_IMPL BLResult bl_file_write(BLFileCore* self, const void* buffer, size_t
   size_t bytes_written = 0;
 
   for (;;) {
-    SignedSizeT result = write(fd, buffer, n - bytes_written);
+    SignedSizeT result = write(fd, static_cast<const uint8_t*>(buffer) + bytes_written, n - bytes_written);
     if (result < 0) {
       int e = errno;
       *bytes_written_out = bytes_written;
-- 
2.43.0


From da1705bf01e7e5833785b60978d06b7d63dd055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:13 +0000
Subject: [PATCH 156/178] Revert "fix: The random generator didn't follow
 xorshift128+ and didn't have its documented full period"

This reverts commit be1cfe29928b975a1e79f687a36a8e7d2c9cc618.
---
 blend2d/core/random_p.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/random_p.h b/blend2d/core/random_p.h
index 51404a2..887f1f1 100644
--- a/blend2d/core/random_p.h
+++ b/blend2d/core/random_p.h
@@ -52,8 +52,9 @@ static BL_INLINE uint64_t next_uint64(BLRandom* self) noexcept {
   uint64_t y = self->data[1];
 
   x ^= x << kStep1Shift;
+  y ^= y >> kStep3Shift;
   x ^= x >> kStep2Shift;
-  x ^= y ^ (y >> kStep3Shift);
+  x ^= y;
 
   self->data[0] = y;
   self->data[1] = x;
@@ -77,8 +78,9 @@ static BL_INLINE SIMD::Vec2xU64 next_uint64AsI128(BLRandom* self) noexcept {
   Vec2xU64 y = loada_64<Vec2xU64>(&self->data[1]);
 
   x = x ^ (x << Shift<kStep1Shift>{});
+  y = y ^ (y >> Shift<kStep3Shift>{});
   x = x ^ (x >> Shift<kStep2Shift>{});
-  x = x ^ (y ^ (y >> Shift<kStep3Shift>{}));
+  x = x ^ y;
 
   storea_64(&self->data[0], y);
   storea_64(&self->data[1], x);
-- 
2.43.0


From 45db55c6b2cd762e29f40c81f97add5b303263cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:12 +0000
Subject: [PATCH 157/178] fix: querying all faces of a family didn't ignore the
 letter case like querying a single face

---
 blend2d/core/fontmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index bfc7c06..36e899b 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -442,7 +442,7 @@ BL_API_IMPL BLResult bl_font_manager_query_faces_by_family_name(const BLFontMana
     BLFontManagerPrivateImpl::FamiliesMapNode* candidate = nullptr;
 
     if (prepare_query(self_impl, name, name_size, &query)) {
-      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.get(query);
+      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.nodes_by_hash_code(query.hash_code());
       while (node) {
         uint32_t family_diff = calc_family_name_diff(node->family_name.view(), query.name());
         if (candidate_diff > family_diff) {
-- 
2.43.0


From d73393ed399fc57d394e89541f8e221803433857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 158/178] fix: a font face that differed from a registered one
 only by its stretch was reported as added, but dropped

---
 blend2d/core/fontmanager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index 36e899b..7798df2 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -66,9 +66,11 @@ static BL_INLINE size_t index_of_face(const BLFontFace* array, size_t size, BLFo
 static BL_INLINE uint32_t calc_face_order(const BLFontFaceImpl* face_impl) noexcept {
   uint32_t style = face_impl->style;
   uint32_t weight = face_impl->weight;
+  uint32_t stretch = face_impl->stretch;
 
   return (style << kQueryDiffStyleValueShift) |
-         (weight << kQueryDiffWeightValueShift);
+         (weight << kQueryDiffWeightValueShift) |
+         (stretch << kQueryDiffStretchValueShift);
 }
 
 static BL_INLINE size_t index_for_insertion(const BLFontFace* array, size_t size, BLFontFaceImpl* face_impl) noexcept {
-- 
2.43.0


From 2e5a1dac713fde02f4613b8866c5bfc7cdb6abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:17 +0000
Subject: [PATCH 159/178] Verification hook that selects CPU features the
 library works with (BL_BUILD_VERIF_HOOKS)

---
 blend2d/core/runtime.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/blend2d/core/runtime.cpp b/blend2d/core/runtime.cpp
index 5cc4e77..b9b2720 100644
--- a/blend2d/core/runtime.cpp
+++ b/blend2d/core/runtime.cpp
@@ -7,6 +7,10 @@
 #include <blend2d/core/runtime_p.h>
 #include <blend2d/support/intops_p.h>
 
+#if defined(BL_BUILD_VERIF_HOOKS)
+  #include <blend2d/codec/pngops_p.h>
+#endif
+
 // PTHREAD_STACK_MIN would be defined either by <pthread.h> or <limits.h>.
 #include <limits.h>
 #include <stdio.h>
@@ -616,3 +620,23 @@ BL_API_IMPL BLResult bl_result_from_posix_error(int e) noexcept {
     return BL_ERROR_UNKNOWN_SYSTEM_ERROR;
 }
 #endif
+
+// BLRuntime - Verification Hooks
+// ==============================
+
+#if defined(BL_BUILD_VERIF_HOOKS)
+// Selects CPU features and hints the library works with and initializes all function tables that depend on them again.
+// Must not be called while the library is in use.
+extern "C" void bl_verif_set_cpu_features(uint32_t cpu_features, uint32_t cpu_hints);
+
+void bl_verif_set_cpu_features(uint32_t cpu_features, uint32_t cpu_hints) {
+  BLRuntimeContext* rt = &bl_runtime_context;
+  rt->system_info.cpu_features = cpu_features;
+  rt->optimization_info.cpu_hints = cpu_hints;
+
+  bl_compression_rt_init(rt);
+  bl_pixel_ops_rt_init(rt);
+  bl_transform_rt_init(rt);
+  bl::Png::Ops::init_func_table(rt);
+}
+#endif // BL_BUILD_VERIF_HOOKS
-- 
2.43.0


From 56fbe8483255bf949d429a407e1f547c98415b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 160/178] fix: conversion of ARGB32 of a foreign layout to RGB
 used a wrong component as alpha (SSSE3, AVX2)

---
 blend2d/core/pixelconverter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 53236a9..5d4826e 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -1821,10 +1821,22 @@ static BLResult bl_pixel_converter_init_simple(BLPixelConverterCore* self, const
         //   PRGB32 <- ARGB32 - Shuffle with premultiply
         //   XRGB32 <- ARGB32 - Shuffle with premultiply
         if (((di.flags & kP) || !(di.flags & kA)) && (si.flags & (kA | kP)) == kA) {
-          uint32_t a_shift = di.shifts[3];
+          // A destination without alpha still needs source alpha to be shuffled to its unused byte so components can
+          // be multiplied by it, the byte is then filled with ones.
+          BLFormatInfo premultiplied_info = di;
+          uint32_t fill_mask = 0;
+
+          if (!(di.flags & kA)) {
+            fill_mask = bl_pixel_converter_calc_fill_mask32(di);
+            premultiplied_info.sizes[3] = 8;
+            premultiplied_info.shifts[3] = uint8_t(bl::IntOps::ctz(fill_mask));
+          }
+
+          uint32_t a_shift = premultiplied_info.shifts[3];
 
           BLPixelConverterData::ShufbData& d = bl_pixel_converter_get_data(self)->shufb_data;
-          bl_pixel_converter_calc_pshufb_predicate_32_from_32(d.shufb_predicate, di, si);
+          bl_pixel_converter_calc_pshufb_predicate_32_from_32(d.shufb_predicate, premultiplied_info, si);
+          d.fill_mask = fill_mask;
 
 #ifdef BL_BUILD_OPT_AVX2
           if (bl_runtime_has_avx2(&bl_runtime_context)) {
-- 
2.43.0


From e2effa334023d8c5a476828c20f107a863f16378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 161/178] fix: unpremultiply read up to 7 pixels past the end
 of a row (AVX2)

---
 blend2d/core/pixelconverter_avx2.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/blend2d/core/pixelconverter_avx2.cpp b/blend2d/core/pixelconverter_avx2.cpp
index 35fa9c4..981272b 100644
--- a/blend2d/core/pixelconverter_avx2.cpp
+++ b/blend2d/core/pixelconverter_avx2.cpp
@@ -533,17 +533,21 @@ static BL_INLINE BLResult bl_convert_unpremultiply_8888_pmulld_template_avx2(
     if (i) {
       Vec32xU8 pix = loadu_256_mask32<Vec32xU8>(src_data, load_store_mask);
 
-      Vec4xU32 rcp_lo = loada_32<Vec4xU32>(rcp_table + src_data[0 * 4 + AI]);
-      Vec4xU32 rcp_hi = loada_32<Vec4xU32>(rcp_table + src_data[4 * 4 + AI]);
+      // Only `i` pixels can be read, so get alpha components from pixels that were already loaded.
+      uint8_t pix_data[32];
+      storeu(pix_data, pix);
 
-      rcp_lo = insert_m32<1>(rcp_lo, rcp_table + src_data[1 * 4 + AI]);
-      rcp_hi = insert_m32<1>(rcp_hi, rcp_table + src_data[5 * 4 + AI]);
+      Vec4xU32 rcp_lo = loada_32<Vec4xU32>(rcp_table + pix_data[0 * 4 + AI]);
+      Vec4xU32 rcp_hi = loada_32<Vec4xU32>(rcp_table + pix_data[4 * 4 + AI]);
 
-      rcp_lo = insert_m32<2>(rcp_lo, rcp_table + src_data[2 * 4 + AI]);
-      rcp_hi = insert_m32<2>(rcp_hi, rcp_table + src_data[6 * 4 + AI]);
+      rcp_lo = insert_m32<1>(rcp_lo, rcp_table + pix_data[1 * 4 + AI]);
+      rcp_hi = insert_m32<1>(rcp_hi, rcp_table + pix_data[5 * 4 + AI]);
 
-      rcp_lo = insert_m32<3>(rcp_lo, rcp_table + src_data[3 * 4 + AI]);
-      rcp_hi = insert_m32<3>(rcp_hi, rcp_table + src_data[7 * 4 + AI]);
+      rcp_lo = insert_m32<2>(rcp_lo, rcp_table + pix_data[2 * 4 + AI]);
+      rcp_hi = insert_m32<2>(rcp_hi, rcp_table + pix_data[6 * 4 + AI]);
+
+      rcp_lo = insert_m32<3>(rcp_lo, rcp_table + pix_data[3 * 4 + AI]);
+      rcp_hi = insert_m32<3>(rcp_hi, rcp_table + pix_data[7 * 4 + AI]);
 
       Vec8xU32 rcp = interleave_i128<Vec8xU32>(rcp_lo, rcp_hi);
       Vec8xU32 pr = vec_u32(srli_u32<RI * 8>(pix));
-- 
2.43.0


From 41de30d95e86c1ce6c5a6ac86a0a98f43976f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 162/178] fix: TrueType contour of a single vertex had no
 MoveTo in the optimized outline decoder

---
 blend2d/opentype/otglyfsimdimpl_p.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index ee0aea6..8699507 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -788,9 +788,6 @@ SlowFlagsDecode:
             uint32_t f = fDataPtr[i];
             current_pt += transform_decoded_vertex(decoded_vertex_array + i, m00_m11, m10_m01);
 
-            if (++i >= iEnd)
-              continue;
-
             // Initial 'MoveTo' coordinates.
             Vec2xF64 initial_pt = current_pt;
 
@@ -802,6 +799,9 @@ SlowFlagsDecode:
             store_vertex(appender, BL_PATH_CMD_MOVE, initial_pt);
             appender._advance(starts_on_curve);
 
+            if (++i >= iEnd)
+              continue;
+
             size_t iEndMinus3 = IntOps::usub_saturate<size_t>(iEnd, 3);
 
             static constexpr uint32_t kPathCmdFromFlagsShift0 = kVecFlagOnCurveShift;
-- 
2.43.0


From 61b16b1842aca1d53b34f4893ba2a68dbc1c7097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 163/178] fix: BLRgba with negative alpha stored in a variant
 was taken for an object

---
 blend2d/core/var.h   | 2 +-
 blend2d/core/var_p.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.h b/blend2d/core/var.h
index 83b88e4..34e9765 100644
--- a/blend2d/core/var.h
+++ b/blend2d/core/var.h
@@ -175,7 +175,7 @@ struct VarOps<BLRgba, kTypeCategoryStruct> {
     uint32_t r = bl_bit_cast<uint32_t>(value.r);
     uint32_t g = bl_bit_cast<uint32_t>(value.g);
     uint32_t b = bl_bit_cast<uint32_t>(value.b);
-    uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(value.a), 0);
+    uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(value.a), 0));
     self->_d.init_u32x4(r, g, b, a);
   }
 
diff --git a/blend2d/core/var_p.h b/blend2d/core/var_p.h
index 84f17ab..b3664ed 100644
--- a/blend2d/core/var_p.h
+++ b/blend2d/core/var_p.h
@@ -28,7 +28,7 @@ static BL_INLINE BLResult init_rgba(BLObjectCore* self, const BLRgba* rgba) noex
   uint32_t r = bl_bit_cast<uint32_t>(rgba->r);
   uint32_t g = bl_bit_cast<uint32_t>(rgba->g);
   uint32_t b = bl_bit_cast<uint32_t>(rgba->b);
-  uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(rgba->a), 0);
+  uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(rgba->a), 0));
 
   self->_d.init_u32x4(r, g, b, a);
   return BL_SUCCESS;
-- 
2.43.0


From dedf06e607e55696d3de9fdd4531ea86e6be1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 164/178] fix: bl_var_to_bool returned whether a string is
 empty as a result and left the output uninitialized

---
 blend2d/core/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 8dda62c..c21d5f1 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -217,7 +217,8 @@ BL_API_IMPL BLResult bl_var_to_bool(const BLUnknown* self, bool* out) noexcept {
     }
 
     case BL_OBJECT_TYPE_STRING: {
-      return !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      *out = !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      return BL_SUCCESS;
     }
 
     default: {
-- 
2.43.0


From cf0acc7ed13b5cba9417fb0fe7198860778ee2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 165/178] fix: variants holding two different doubles compared
 equal

---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index c21d5f1..fc87765 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -680,7 +680,7 @@ BL_API_IMPL bool bl_var_equals(const BLUnknown* a, const BLUnknown* b) noexcept
       return false;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return a_d.f64_data[0] == a_d.f64_data[0];
+      return a_d.f64_data[0] == b_d.f64_data[0] || (bl::Math::is_nan(a_d.f64_data[0]) && bl::Math::is_nan(b_d.f64_data[0]));
 
     case BL_OBJECT_TYPE_STRING:
       return bl_string_equals(static_cast<const BLStringCore*>(a), static_cast<const BLStringCore*>(b));
-- 
2.43.0


From 0722384e442917edb00a289e972b12cba53c22ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:34 +0000
Subject: [PATCH 166/178] fix: conversion of a double that is 2^63 or 2^64 to a
 64-bit integer wrapped around

---
 blend2d/core/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index fc87765..fb6fbee 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -341,7 +341,7 @@ BL_API_IMPL BLResult bl_var_to_int64(const BLUnknown* self, int64_t* out) noexce
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(INT64_MAX)) {
+      if (f >= double(INT64_MAX)) {
         *out = INT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
@@ -479,7 +479,7 @@ BL_API_IMPL BLResult bl_var_to_uint64(const BLUnknown* self, uint64_t* out) noex
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(UINT64_MAX)) {
+      if (f >= double(UINT64_MAX)) {
         *out = UINT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
-- 
2.43.0


From 25ef70fdc0c8ebe847a591b2ea8450eea2c745a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 167/178] fix: default values of simple types were transparent
 black (moved-from variants, bl_var_init_type)

---
 blend2d/core/runtime.cpp |  1 +
 blend2d/core/runtime_p.h |  1 +
 blend2d/core/var.cpp     | 16 ++++++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/blend2d/core/runtime.cpp b/blend2d/core/runtime.cpp
index b9b2720..caf2f0c 100644
--- a/blend2d/core/runtime.cpp
+++ b/blend2d/core/runtime.cpp
@@ -282,6 +282,7 @@ BL_API_IMPL BLResult bl_runtime_init() noexcept {
 
   bl_compression_rt_init(rt);
   bl_pixel_ops_rt_init(rt);
+  bl_var_rt_init(rt);
   bl_bit_array_rt_init(rt);
   bl_bit_set_rt_init(rt);
   bl_array_rt_init(rt);
diff --git a/blend2d/core/runtime_p.h b/blend2d/core/runtime_p.h
index e77468f..0dc1cda 100644
--- a/blend2d/core/runtime_p.h
+++ b/blend2d/core/runtime_p.h
@@ -205,6 +205,7 @@ BL_HIDDEN void bl_zero_allocator_rt_init(BLRuntimeContext* rt) noexcept;
 
 BL_HIDDEN void bl_compression_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_pixel_ops_rt_init(BLRuntimeContext* rt) noexcept;
+BL_HIDDEN void bl_var_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_bit_array_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_bit_set_rt_init(BLRuntimeContext* rt) noexcept;
 BL_HIDDEN void bl_array_rt_init(BLRuntimeContext* rt) noexcept;
diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index fb6fbee..9ac6768 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -875,3 +875,19 @@ BL_API_IMPL bool bl_var_strict_equals(const BLUnknown* a, const BLUnknown* b) no
 
   return a_d == b_d;
 }
+
+// bl::Var - Runtime Registration
+// ==============================
+
+void bl_var_rt_init(BLRuntimeContext* rt) noexcept {
+  bl_unused(rt);
+
+  // NOTE: BL_OBJECT_TYPE_RGBA is zero, so it doesn't have to be initialized.
+  bl_object_defaults[BL_OBJECT_TYPE_RGBA32]._d.init_rgba32(0);
+  bl_object_defaults[BL_OBJECT_TYPE_RGBA64]._d.init_rgba64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_NULL]._d.init_null();
+  bl_object_defaults[BL_OBJECT_TYPE_BOOL]._d.init_bool(false);
+  bl_object_defaults[BL_OBJECT_TYPE_INT64]._d.init_int64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_UINT64]._d.init_uint64(0);
+  bl_object_defaults[BL_OBJECT_TYPE_DOUBLE]._d.init_double(0.0);
+}
-- 
2.43.0


From 94a02d15139bc53e771e0bcf70ecaeb9e4c4f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:28 +0000
Subject: [PATCH 168/178] fix: styles of a rendering context that ended without
 restoring its saved states leaked (or a solid style was released)

---
 blend2d/raster/rastercontext.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 2dba431..78b07b1 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1593,10 +1593,11 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
   if (saved_state == top_state)
     return;
 
-  // NOTE: No need to handle parts of states that don't use dynamically allocated memory.
+  // NOTE: No need to handle parts of states that don't use dynamically allocated memory. A style in a saved state is
+  // only valid when the state that follows has changed it, and it's described by flags of the context that was saved.
   ContextFlags context_flags = ctx_impl->context_flags;
   do {
-    if ((context_flags & (ContextFlags::kFetchDataFill | ContextFlags::kWeakStateFillStyle)) == ContextFlags::kFetchDataFill) {
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateFillStyle) && bl_test_flag(saved_state->prev_context_flags, ContextFlags::kFetchDataFill)) {
       constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_FILL;
       if (saved_state->style[kSlot].has_fetch_data()) {
         RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
@@ -1604,7 +1605,7 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
       }
     }
 
-    if ((context_flags & (ContextFlags::kFetchDataStroke | ContextFlags::kWeakStateStrokeStyle)) == ContextFlags::kFetchDataStroke) {
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle) && bl_test_flag(saved_state->prev_context_flags, ContextFlags::kFetchDataStroke)) {
       constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_STROKE;
       if (saved_state->style[kSlot].has_fetch_data()) {
         RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
@@ -4508,11 +4509,11 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // Release all states.
   //
   // Important as the user doesn't have to restore all states, in that case we basically need to iterate
-  // over all of them and release resources they hold.
+  // over all of them and release resources they hold. Flags that describe current styles must be read first.
+  ContextFlags context_flags = ctx_impl->context_flags;
   discard_states(ctx_impl, nullptr);
   bl_call_dtor(ctx_impl->internal_state.stroke_options);
 
-  ContextFlags context_flags = ctx_impl->context_flags;
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
     destroy_valid_style(ctx_impl, &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL]);
 
-- 
2.43.0


From 1f1ed5b6e2cdef54a72ab806308f186863ca8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:49 +0000
Subject: [PATCH 169/178] fix: string lost its null terminator when formatting
 failed to allocate memory

---
 blend2d/core/string.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index b79a405..8b298ed 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -650,8 +650,11 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
     char* dst = u.data;
     fmt_result = vsnprintf(dst + index, remaining + 1, fmt, ap);
 
-    if (BL_UNLIKELY(fmt_result < 0))
+    if (BL_UNLIKELY(fmt_result < 0)) {
+      dst[index] = '\0';
+      set_size(self, index);
       return bl_make_error(BL_ERROR_INVALID_VALUE);
+    }
 
     output_size = size_t(unsigned(fmt_result));
     if (BL_LIKELY(output_size <= remaining)) {
@@ -661,6 +664,10 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
       set_size(self, index + output_size);
       return BL_SUCCESS;
     }
+
+    // The text doesn't fit - discard its truncated part to keep the string valid if the following allocation fails.
+    dst[index] = '\0';
+    set_size(self, index);
   }
   else {
     fmt_result = vsnprintf(buf, BL_ARRAY_SIZE(buf), fmt, ap);
-- 
2.43.0


From 6faa6478d4adf8e70f30289d3f163da985a115e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:26 +0000
Subject: [PATCH 170/178] fix: failure to allocate a temporary buffer when
 scaling an image was ignored and the scaling used uninitialized weights

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 0818559..7477e95 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -899,8 +899,8 @@ BLResult ImageScaleContext::create(const BLSizeI& to, const BLSizeI& from, uint3
 
   // Built-in filters will probably never fail, however, custom filters can and
   // it wouldn't be safe to just continue.
-  image_scale_ops.weights(d, kDirHorz, filter_func);
-  image_scale_ops.weights(d, kDirVert, filter_func);
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirHorz, filter_func));
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirVert, filter_func));
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From 399e8a525a220850c2a505b8198f0015e80a0fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 171/178] fix: failures to shape a text or to transform a path
 in a worker thread weren't reported

---
 blend2d/raster/rastercontextops_p.h |  5 ++++-
 blend2d/raster/renderjobproc_p.h    | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/blend2d/raster/rastercontextops_p.h b/blend2d/raster/rastercontextops_p.h
index 5f5e490..d5c03e7 100644
--- a/blend2d/raster/rastercontextops_p.h
+++ b/blend2d/raster/rastercontextops_p.h
@@ -111,7 +111,10 @@ static BL_INLINE BLResult add_stroked_path_edges(
 
   if (accessor.stroke_options().transform_order != BL_STROKE_TRANSFORM_ORDER_AFTER) {
     a->clear();
-    BL_PROPAGATE(a->add_path(*path, accessor.user_transform()));
+    BLResult add_path_result = a->add_path(*path, accessor.user_transform());
+
+    if (BL_UNLIKELY(add_path_result != BL_SUCCESS))
+      return work_data->accumulate_error(add_path_result);
 
     path = a;
     a = &work_data->tmp_path[3];
diff --git a/blend2d/raster/renderjobproc_p.h b/blend2d/raster/renderjobproc_p.h
index 3f48d91..d05c62a 100644
--- a/blend2d/raster/renderjobproc_p.h
+++ b/blend2d/raster/renderjobproc_p.h
@@ -158,13 +158,18 @@ static void process_fill_text_job(WorkData* work_data, RenderJob_TextOp* job) no
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS)
+      result = font.shape(*glyph_buffer);
+
+    if (result != BL_SUCCESS)
+      work_data->accumulate_error(result);
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
@@ -218,13 +223,18 @@ static void process_stroke_text_job(WorkData* work_data, RenderJob_TextOp* job)
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS)
+      result = font.shape(*glyph_buffer);
+
+    if (result != BL_SUCCESS)
+      work_data->accumulate_error(result);
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
-- 
2.43.0


From 2fced7da8718fb1b5baedb1f6ef10760259be0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 172/178] fix: cached tables and info of a gradient shared by
 threads were read non-atomically

---
 blend2d/core/gradient.cpp        | 24 ++++++++++++------------
 blend2d/raster/rastercontext.cpp |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 49062ec..1017103 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -202,7 +202,7 @@ static BL_INLINE BLResult invalidate_lut_cache(BLGradientPrivateImpl* impl) noex
 BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
   BLGradientInfo info;
 
-  info.packed = impl->info32.packed;
+  info.packed = bl_atomic_fetch_relaxed(&impl->info32.packed);
 
   constexpr uint32_t FLAG_ALPHA_NOT_ONE  = 0x1; // Has alpha that is not 1.0.
   constexpr uint32_t FLAG_ALPHA_NOT_ZERO = 0x2; // Has alpha that is not 0.0.
@@ -278,8 +278,8 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
       info.format = uint8_t(flags & FLAG_ALPHA_NOT_ONE ? FormatExt::kPRGB32 : FormatExt::kFRGB32);
       info._lut_size = uint16_t(lut_size);
 
-      // Update the info. It doesn't have to be atomic.
-      impl->info32.packed = info.packed;
+      // Update the info. Other threads may do the same at the same time, but they would store the same value.
+      bl_atomic_store_relaxed(&impl->info32.packed, info.packed);
     }
   }
 
@@ -287,7 +287,7 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
 }
 
 BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut32;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut32);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -312,7 +312,7 @@ BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noex
 }
 
 BLGradientLUT* ensure_lut64(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut64;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut64);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -375,9 +375,9 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   new_impl->size = copy_stops(new_impl->stops, other_impl->stops, other_impl->size);
 
   if (copy_cache) {
-    new_impl->lut32 = copyMaybeNullLUT(other_impl->lut32);
-    new_impl->lut64 = copyMaybeNullLUT(other_impl->lut64);
-    new_impl->info32.packed = other_impl->info32.packed;
+    new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut32));
+    new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut64));
+    new_impl->info32.packed = bl_atomic_fetch_relaxed(&other_impl->info32.packed);
   }
 
   return replace_instance(self, &newO);
@@ -547,8 +547,8 @@ BL_API_IMPL BLResult bl_gradient_shrink(BLGradientCore* self) noexcept {
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
@@ -571,8 +571,8 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 78b07b1..2ccc1b7 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -471,7 +471,7 @@ static BL_INLINE bool init_non_solid_fetch_data(
         const void* lut_data = nullptr;
         uint32_t lut_size = gradient_info.lut_size(quality >= BL_GRADIENT_QUALITY_DITHER);
 
-        BLGradientLUT* lut = gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)];
+        BLGradientLUT* lut = bl_atomic_fetch_strong(&gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)]);
         if (lut)
           lut_data = lut->data();
 
-- 
2.43.0


From 36c895cecd797cce1820f917b2c29dc4cb95c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 173/178] fix: reference counts were read non-atomically while
 other threads could change them

---
 blend2d/core/object_p.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index b49eda3..cb448f9 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -91,7 +91,7 @@ struct BLObjectImplHeader {
   BL_INLINE_NODEBUG size_t alignment_offset() const noexcept { return flags & kAlignmentOffsetMask; }
 
   //! Tests whether this object impl is reference counted.
-  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return ref_count != 0u; }
+  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return bl_atomic_fetch_relaxed(&ref_count) != 0u; }
   //! Tests whether this object impl is immutable.
   BL_INLINE_NODEBUG bool is_immutable() const noexcept { return (flags & kRefCountedAndImmutableFlags) != kRefCountedFlag; }
   //! Tests whether this object impl holds external data.
@@ -306,7 +306,7 @@ static BL_INLINE void call_external_destroy_func(BLObjectImpl* impl, void* exter
 //! Tests whether the `impl` is mutable.
 static BL_INLINE bool is_impl_mutable(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == 1;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1;
 }
 
 //! Tests whether the `impl` is reference counted.
@@ -320,7 +320,7 @@ static BL_INLINE bool is_impl_ref_counted(const BLObjectImpl* impl) noexcept {
 //! This check essentially checks whether these is only a single remaining reference to the `impl`.
 static BL_INLINE bool is_impl_ref_count_equal_to_base(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == header->base_ref_count_value();
+  return bl_atomic_fetch_strong(&header->ref_count) == header->base_ref_count_value();
 }
 
 //! Initializes the reference count of `impl` to its base value, considering the passed `immediate` flag.
@@ -336,7 +336,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
 //! Returns a reference count of `impl`.
 static BL_INLINE size_t get_impl_ref_count(const BLObjectImpl* impl) noexcept {
-  return get_impl_header(impl)->ref_count;
+  return bl_atomic_fetch_strong(&get_impl_header(impl)->ref_count);
 }
 
 template<RCMode kRCMode>
@@ -372,13 +372,13 @@ static BL_INLINE BLResult release_virtual_impl(BLObjectImpl* impl) noexcept {
 //! whether the object is dynamic and that dynamic object has a mutable impl, use `is_instance_impl_mutable()` instead.
 static BL_INLINE bool is_instance_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_1 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an untyped object is dynamic and has a mutable Impl.
 static BL_INLINE bool is_instance_dynamic_and_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_0 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an object that always has a dynamic Impl is mutable.
@@ -386,7 +386,7 @@ static BL_INLINE bool is_dynamic_instance_mutable(const BLObjectCore* self) noex
   BL_ASSERT(self->_d.is_dynamic_object());
 
   const BLObjectImplHeader* header = get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 template<typename T>
@@ -546,8 +546,10 @@ static BL_NOINLINE bool bl_object_atomic_content_move(BLObjectCore* self, BLObje
 
   if (bl_atomic_compare_exchange(&self->_d.info.bits, &self_info, 1u)) {
     // We have successfully acquired the info so we can perform the move.
-    self->_d = other_d;
-    bl_atomic_thread_fence();
+    // We have to store the info last as it tells other threads that the content is valid.
+    self->_d.u64_data[0] = other_d.u64_data[0];
+    self->_d.u32_data[2] = other_d.u32_data[2];
+    bl_atomic_store_strong(&self->_d.info.bits, other_d.info.bits);
 
     other->_d = bl_object_defaults[other_d.raw_type()]._d;
     return true;
-- 
2.43.0


From ca7e0351eb3f85ee1a73b683d95a13ac316e8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 174/178] fix: threads asking for the info of a shared path
 could see an unfinished bounding box

---
 blend2d/core/path.cpp | 92 +++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 33 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 5b9fb5c..41acb9f 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2253,42 +2253,64 @@ BL_API_IMPL bool bl_path_equals(const BLPathCore* a, const BLPathCore* b) noexce
 namespace bl {
 namespace PathInternal {
 
-static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl) noexcept {
-  // Special-case. The path info is valid, but the path is invalid. We handle it here to simplify `ensure_info()`
-  // and to make it a bit shorter.
-  if (self_impl->flags & BL_PATH_FLAG_INVALID)
-    return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
+struct PathInfo {
+  uint32_t flags;
+  BLBox control_box;
+  BLBox bounding_box;
+};
 
+// Set together with `BL_PATH_FLAG_DIRTY` by the thread that is about to store the path info into the `impl`.
+static constexpr uint32_t kPathFlagUpdating = 0x20000000u;
+
+static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl, PathInfo& info) noexcept {
   PathInfoUpdater updater;
   BLResult result = updater.update(self_impl->view);
 
-  // Path is invalid.
+  info.flags = updater.flags;
+
   if (result != BL_SUCCESS) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_INVALID;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
-    return result;
+    // Path is invalid.
+    info.flags |= BL_PATH_FLAG_INVALID;
+    info.control_box.reset();
+    info.bounding_box.reset();
+  }
+  else if (!(updater.bounding_box.x0 <= updater.bounding_box.x1 &&
+             updater.bounding_box.y0 <= updater.bounding_box.y1)) {
+    // Path is empty.
+    info.flags |= BL_PATH_FLAG_EMPTY;
+    info.control_box.reset();
+    info.bounding_box.reset();
+  }
+  else {
+    // Path is valid.
+    info.control_box = updater.control_box;
+    info.bounding_box = updater.bounding_box;
   }
 
-  // Path is empty.
-  if (!(updater.bounding_box.x0 <= updater.bounding_box.x1 &&
-        updater.bounding_box.y0 <= updater.bounding_box.y1)) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_EMPTY;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
-    return BL_SUCCESS;
+  // The path can be shared with other threads that could be doing the same at the moment, so only let one of them to
+  // store the info, and only clear the dirty flag when the info has been stored.
+  uint32_t expected = BL_PATH_FLAG_DIRTY;
+  if (bl_atomic_compare_exchange(&self_impl->flags, &expected, uint32_t(BL_PATH_FLAG_DIRTY | kPathFlagUpdating))) {
+    self_impl->control_box = info.control_box;
+    self_impl->bounding_box = info.bounding_box;
+    bl_atomic_store_strong(&self_impl->flags, info.flags);
   }
 
-  // Path is valid.
-  self_impl->flags = updater.flags;
-  self_impl->control_box = updater.control_box;
-  self_impl->bounding_box = updater.bounding_box;
-  return BL_SUCCESS;
+  return result;
 }
 
-static BL_INLINE BLResult ensure_info(BLPathPrivateImpl* self_impl) noexcept {
-  if (self_impl->flags & (BL_PATH_FLAG_INVALID | BL_PATH_FLAG_DIRTY))
-    return update_info(self_impl);
+static BL_INLINE BLResult get_info(BLPathPrivateImpl* self_impl, PathInfo& info) noexcept {
+  info.flags = bl_atomic_fetch_strong(&self_impl->flags);
+
+  if (info.flags & BL_PATH_FLAG_DIRTY)
+    return update_info(self_impl, info);
+
+  info.control_box = self_impl->control_box;
+  info.bounding_box = self_impl->bounding_box;
+
+  // The path info is valid, but the path itself is not.
+  if (info.flags & BL_PATH_FLAG_INVALID)
+    return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
 
   return BL_SUCCESS;
 }
@@ -2301,9 +2323,10 @@ BL_API_IMPL BLResult bl_path_get_info_flags(const BLPathCore* self, uint32_t* fl
   BL_ASSERT(self->_d.is_path());
 
   BLPathPrivateImpl* self_impl = get_impl(self);
-  BLResult result = ensure_info(self_impl);
+  PathInfo info;
+  BLResult result = get_info(self_impl, info);
 
-  *flags_out = self_impl->flags;
+  *flags_out = info.flags;
   return result;
 }
 
@@ -2315,9 +2338,10 @@ BL_API_IMPL BLResult bl_path_get_control_box(const BLPathCore* self, BLBox* box_
   BL_ASSERT(self->_d.is_path());
 
   BLPathPrivateImpl* self_impl = get_impl(self);
-  BLResult result = ensure_info(self_impl);
+  PathInfo info;
+  BLResult result = get_info(self_impl, info);
 
-  *box_out = self_impl->control_box;
+  *box_out = info.control_box;
   return result;
 }
 
@@ -2326,9 +2350,10 @@ BL_API_IMPL BLResult bl_path_get_bounding_box(const BLPathCore* self, BLBox* box
   BL_ASSERT(self->_d.is_path());
 
   BLPathPrivateImpl* self_impl = get_impl(self);
-  BLResult result = ensure_info(self_impl);
+  PathInfo info;
+  BLResult result = get_info(self_impl, info);
 
-  *box_out = self_impl->bounding_box;
+  *box_out = info.bounding_box;
   return result;
 }
 
@@ -2446,10 +2471,11 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     // This code-path can be used to skip the whole path if the given point is
     // too far. We need 'max_distance' to be specified and also bounding-box to
     // be available.
-    if (ensure_info(self_impl) == BL_SUCCESS) {
+    PathInfo info;
+    if (get_info(self_impl, info) == BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
-      const BLBox& b_box = self_impl->control_box;
+      const BLBox& b_box = info.control_box;
       if (!(pt.x >= b_box.x0 - best_distance && pt.y >= b_box.y0 - best_distance &&
             pt.x <= b_box.x1 + best_distance && pt.y <= b_box.y1 + best_distance))
         return bl_make_error(BL_ERROR_NO_MATCHING_VERTEX);
-- 
2.43.0


From ee4ffb46af2f7bd496b5447db7b260f93ed3527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 175/178] fix: dash array of a rendering context leaked when
 the context was destroyed or rendered asynchronously

---
 blend2d/raster/rastercontext.cpp | 2 +-
 blend2d/raster/statedata_p.h     | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 2ccc1b7..b7d8d33 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -4512,7 +4512,7 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // over all of them and release resources they hold. Flags that describe current styles must be read first.
   ContextFlags context_flags = ctx_impl->context_flags;
   discard_states(ctx_impl, nullptr);
-  bl_call_dtor(ctx_impl->internal_state.stroke_options);
+  bl_call_dtor(ctx_impl->internal_state.stroke_options.dcast());
 
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
     destroy_valid_style(ctx_impl, &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL]);
diff --git a/blend2d/raster/statedata_p.h b/blend2d/raster/statedata_p.h
index deb8b40..df2e6d6 100644
--- a/blend2d/raster/statedata_p.h
+++ b/blend2d/raster/statedata_p.h
@@ -155,7 +155,11 @@ struct SharedBaseStrokeState {
 
   BL_INLINE explicit SharedBaseStrokeState(const BLStrokeOptions& stroke_options, const BLApproximationOptions& approximation_options) noexcept
     : stroke_options(stroke_options),
-      approximation_options(approximation_options) {}
+      approximation_options(approximation_options) {
+    // The state is allocated from a memory pool and never destroyed so it cannot own the dash array, which is not used
+    // by rendering jobs.
+    this->stroke_options.dash_array.reset();
+  }
 };
 
 //! A shared stroke state that is used by strokes with specific transform_order.
-- 
2.43.0


From c273aa7f4a84053148e04e91198184a473cb45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 176/178] fix: mask image leaked when a mask was filled
 asynchronously

---
 blend2d/raster/rastercontext.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index b7d8d33..b8244c0 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3215,6 +3215,10 @@ BL_NOINLINE BLResult fill_clipped_box_masked_a<kAsync>(
 
   return enqueue_command(ctx_impl, command, qy0, ds.fetch_data, [&](RenderCommand* command) noexcept {
     ObjectInternal::retain_impl<RCMode::kMaybe>(command->_payload.box_mask_a.mask_image_i.ptr);
+
+    // The mask is released when the batch has been rendered.
+    command->add_flags(RenderCommandFlags::kRetainsMaskImageData);
+    ctx_impl->worker_mgr().command_appender().mark_fetch_data();
   });
 }
 
-- 
2.43.0


From bcc31fa0281568c883df92ee6289089cafc23068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 177/178] fix: setting the dash array of a rendering context to
 its own dash array used freed memory

---
 blend2d/raster/rastercontext.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index b8244c0..fab1035 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2142,11 +2142,16 @@ static BLResult BL_CDECL set_stroke_dash_array_impl(BLContextImpl* base_impl, co
   if (BL_UNLIKELY(dash_array->_d.raw_type() != BL_OBJECT_TYPE_ARRAY_FLOAT64))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+  // The `dash_array` passed could be the one that is going to be replaced, so retain it before it's released.
+  BLArrayCore new_dash_array;
+  new_dash_array._d = dash_array->_d;
+  ArrayInternal::retain_instance(&new_dash_array);
+
   on_before_stroke_change_and_destroy_dash_array(ctx_impl);
   ctx_impl->context_flags &= ~(ContextFlags::kNoStrokeOptions | ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
-  ctx_impl->internal_state.stroke_options.dash_array._d = dash_array->_d;
-  return ArrayInternal::retain_instance(&ctx_impl->internal_state.stroke_options.dash_array);
+  ctx_impl->internal_state.stroke_options.dash_array._d = new_dash_array._d;
+  return BL_SUCCESS;
 }
 
 static BLResult BL_CDECL set_stroke_transform_order_impl(BLContextImpl* base_impl, BLStrokeTransformOrder transform_order) noexcept {
-- 
2.43.0


From 638c25265392fa291d20b3596a3b6ef2818af864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:03 +0000
Subject: [PATCH 178/178] fix: bl_pattern_assign_deep takes extend mode and
 transform type from the source

---
 blend2d/core/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pattern.cpp b/blend2d/core/pattern.cpp
index 71289b2..090863f 100644
--- a/blend2d/core/pattern.cpp
+++ b/blend2d/core/pattern.cpp
@@ -45,7 +45,7 @@ static BL_NOINLINE BLResult make_mutable_copy_of(BLPatternCore* self, const BLPa
   BLPatternPrivateImpl* other_impl = get_impl(other);
 
   BLPatternCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(self), &other_impl->transform, get_transform_type(self)));
+  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(other), &other_impl->transform, get_transform_type(other)));
 
   return replace_instance(self, &newO);
 }
-- 
2.43.0

