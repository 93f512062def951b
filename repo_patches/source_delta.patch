From 914d0652e202fceaa1b26d6db75ec0267bcecd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:16 +0000
Subject: [PATCH 01/35] fix: simple_resource must not claim the block after an
 allocation

The last block of an allocation was computed from one past its end, so a
request whose size is a multiple of the block size took one block too many,
and an exact fit walked past the free region.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..a0be8fe 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + aSize - 1);
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From b9ed67e8e0fb236d6d90a771067db8827157a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 02/35] fix: simple_resource walk must use block index, not
 bool

The actions passed to apply() returned bool, so the next region index
collapsed to 1: allocation missed free regions or never ended and release()
followed stale block infos.
---
 sources/include/utils/memory/simple_resource.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index a0be8fe..0fae64a 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -214,7 +214,7 @@ class simple_resource : public memory_resource
     void release() noexcept
     {
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -302,7 +302,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -313,7 +313,7 @@ class simple_resource : public memory_resource
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-                              return 0;
+                              return BIndex{};
                           }
                           return at(aIndex).next_index();
                       });
@@ -391,7 +391,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From 6b01304ea61438dac6920e74daaad36686380d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:17 +0000
Subject: [PATCH 03/35] fix: simple_resource must reject sizes which overflow
 the fit check

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 0fae64a..6bb013d 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,7 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if ((skip <= block_size) && (aSize <= block_size - skip))
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From 6f0b8520788f8724043a754e00c89700d29313c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 04/35] fix: simple_resource must ask upstream for block
 aligned memory

deallocate() accepts only pointers aligned to the block size, so memory
taken from the upstream with a smaller alignment could not be returned.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 6bb013d..8732ef1 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -323,7 +323,7 @@ class simple_resource : public memory_resource
         if (!pointer && upstream_)
         {
             pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+                upstream_->allocate(aSize, std::max(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From a9412cfaddf9d5c3a59e2ba4e1d5184d6a185153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 05/35] fix: simple_resource buffer alignment must not be
 computed in int

---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 8732ef1..9cfd90e 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -295,7 +295,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 4bcf5fd595815ac63f4311eafc3a2e7ea064b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:18 +0000
Subject: [PATCH 06/35] fix: max_alignment_inside_block must not shift int out
 of range

---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..677b675 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -423,7 +423,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
-- 
2.43.0


From 114e23aa418ee72689e2c1957a7418675ffd975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 07/35] fix: simple_resource without a block must accept
 release()

---
 sources/include/utils/memory/simple_resource.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 9cfd90e..ad2923f 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,11 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!data_)
+        {
+            return;
+        }
+
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
-- 
2.43.0


From eb7a8088eeea520a33b8050585eb15ed968af4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 08/35] fix: monotonic_buffer_resource must reject sizes which
 overflow a pointer

A huge request wrapped the end pointer around and was served from the buffer.
---
 sources/include/utils/memory/monotonic_buffer_resource.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..7b8caae 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -72,12 +72,11 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto rest = static_cast<std::size_t>(data_ + size_ - next_);
+            if ((skip <= rest) && (aSize <= rest - skip))
             {
-                next_ = supposed_result + aSize;
-                pointer = supposed_result;
+                pointer = next_ + skip;
+                next_ = pointer + aSize;
             }
         }
 
-- 
2.43.0


From 01ded4b5b6168442510a5118a9ab5a6e7b823100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 09/35] fix: allocator must forward constructor arguments as
 they were given

Every argument was converted to the allocator's value type on its way to the
constructor, and new_object() passed all of them as lvalues.
---
 sources/include/utils/memory/allocator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..71b0919 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -2,6 +2,7 @@
 #define utils_allocator_h
 
 #include <type_traits>
+#include <utility>
 
 #include "memory.h"
 
@@ -37,7 +38,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -68,7 +69,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From 2a7815514fb894d45df589dc1921952a13587f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:51 +0000
Subject: [PATCH 10/35] fix: allocators of different types must be convertible
 and comparable

Both used a private member of another class template specialization and did
not compile.
---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 71b0919..d3d724c 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -21,7 +21,7 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource())
     {
     }
 
@@ -105,7 +105,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From 6c55958e873d8db12a57d1659e04bb2a36c3aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:52 +0000
Subject: [PATCH 11/35] fix: allocator must fail when the requested byte count
 overflows

---
 sources/include/utils/memory/allocator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index d3d724c..c1dd2e9 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,6 +1,7 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <limits>
 #include <type_traits>
 #include <utility>
 
@@ -29,6 +30,10 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
+        {
+            return nullptr;
+        }
         return static_cast<T*>(
             resource_->allocate(aCount * sizeof(T), alignof(T)));
     }
@@ -53,6 +58,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 33cde0f41f4653b66d055fd75a285e53464bba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 12/35] fix: constexpr memmove must handle a destination inside
 the source

---
 sources/include/utils/memory/memory.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..5b26796 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -98,6 +98,17 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        for (std::size_t i = 1; i < aCount; ++i)
+        {
+            if (aDst == aSrc + i)
+            {  // destination begins inside the source: copy from the end
+                for (std::size_t k = aCount; k > 0; --k)
+                {
+                    *(aDst + k - 1) = *(aSrc + k - 1);
+                }
+                return aDst;
+            }
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
             *(aDst + i) = *(aSrc + i);
-- 
2.43.0


From 3cf992d8cb4984d633b3f3d5cdf3dd3585b601ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 13/35] fix: secure_zero_memory must not be removed by the
 optimizer

With optimization on, wiping memory which is not read afterwards (freed right
away, for example) was dropped as dead stores.
---
 sources/include/utils/memory/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 5b26796..8a80a52 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -66,7 +66,12 @@ inline constexpr void secure_zero_memory(std::byte *aPtr,
 #ifdef __STDC_LIB_EXT1__
         sysops::memory::ops::memset_s(aPtr, aSize, '\0', aSize);
 #else
-        handmade_zero_mem(aPtr, aSize);
+        // writes through volatile can't be optimized away
+        volatile std::byte *const ptr = aPtr;
+        for (std::size_t i = 0; i < aSize; ++i)
+        {
+            *(ptr + i) = std::byte{};
+        }
 #endif
 #endif
     }
-- 
2.43.0


From 53356d4cf95e8563b33fe226c5f04e8d87b616b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 14/35] fix: system and null memory resources must be one
 object per program

The accessors had internal linkage, so each translation unit owned its own
resource and the same resource compared unequal across translation units.
---
 sources/include/utils/memory/memory.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8a80a52..3d87017 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -234,8 +234,8 @@ class memory_resource
     deallocate_t deallocate_{};
 };
 
-static memory_resource *system_memory_resource() noexcept;
-static memory_resource *null_memory_resource() noexcept;
+inline memory_resource *system_memory_resource() noexcept;
+inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
@@ -302,25 +302,25 @@ class null_memory_resource : public memory_resource
 };
 }  // namespace details
 
-[[maybe_unused]] static memory_resource *system_memory_resource() noexcept
+inline memory_resource *system_memory_resource() noexcept
 {
     static details::system_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *null_memory_resource() noexcept
+inline memory_resource *null_memory_resource() noexcept
 {
     static details::null_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *set_default_resource(
+inline memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
     return details::default_resource.exchange(aResource);
 }
 
-[[maybe_unused]] static memory_resource *get_default_resource() noexcept
+inline memory_resource *get_default_resource() noexcept
 {
     return details::default_resource.load();
 }
-- 
2.43.0


From 80f0f5fb940afb81e7410c8ebefa922b6535333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 15/35] fix: div of unsigned operands must not go through
 signed division

At run time the operands were converted to a signed type, so values with the
most significant bit set gave other results than in constant evaluation.
---
 sources/include/utils/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 677b675..c49181a 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -591,7 +591,7 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
     static_assert(std::is_integral_v<T>);
     static_assert(std::is_integral_v<U>);
     using type = std::common_type_t<remove_cvref_t<T>, remove_cvref_t<U>>;
-    if (__builtin_is_constant_evaluated())
+    if (__builtin_is_constant_evaluated() || std::is_unsigned_v<type>)
     {
         return div_t<type>{static_cast<type>(static_cast<type>(aNumerator) /
                                              static_cast<type>(aDenominator)),
-- 
2.43.0


From 171c03e81c5df23f3cbd07e197112ccd8a90c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 16/35] fix: make_array must fill every element with the given
 value

The value was moved into each element, so all but the first one were built
from a moved-from object.
---
 sources/include/utils/common.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index c49181a..f10cf91 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -169,16 +169,23 @@ constexpr auto concatenate_arrays(A1&& aArray1, A2&& aArray2,
 }
 
 template <typename T, std::size_t I>
-constexpr decltype(auto) make_element_for_index(T&& aValue) noexcept
+constexpr decltype(auto) make_element_for_index(T& aValue) noexcept
 {
-    return std::forward<T>(aValue);
+    if constexpr (std::is_copy_constructible_v<T>)
+    {
+        return static_cast<const T&>(aValue);
+    }
+    else
+    {
+        return std::move(aValue);
+    }
 }
 
 template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
     [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    return {make_element_for_index<T, I>(aValue)...};
 }
 
 template <std::size_t... I>
-- 
2.43.0


From 81c641116d6aef6c546a8c657beabb7354f1671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 17/35] fix: cartesian_product with an empty list must be an
 empty list

An empty list in any position but the last one did not compile.
---
 sources/include/utils/cartesian_product.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index 563c628..d13c9d9 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -85,6 +85,7 @@ template <std::size_t I, auto... Values, typename List>
 struct cartesian_product_impl<I, value_list<Values...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, value_list<Values>, List>::type...>;
 };
 
@@ -92,6 +93,7 @@ template <std::size_t I, typename... Ts, typename List>
 struct cartesian_product_impl<I, type_list<Ts...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, type_list<Ts>, List>::type...>;
 };
 }  // namespace details
-- 
2.43.0


From 768800f441bbdedb32ffac69145fae79c6701f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 18/35] fix: headers must include what they use

Most headers compiled only after some other header had been included.
---
 sources/include/utils/cartesian_product.h                | 2 ++
 sources/include/utils/common.h                           | 5 +++++
 sources/include/utils/details/cxz.h                      | 2 ++
 sources/include/utils/fast_pimpl.h                       | 2 ++
 sources/include/utils/memory/allocator.h                 | 2 ++
 sources/include/utils/memory/memory.h                    | 2 ++
 sources/include/utils/memory/monotonic_buffer_resource.h | 2 ++
 sources/include/utils/memory/simple_resource.h           | 2 ++
 sources/include/utils/timer.h                            | 3 +++
 sources/include/utils/value_list.h                       | 1 +
 10 files changed, 23 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index d13c9d9..7b3a2a0 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -1,6 +1,8 @@
 #ifndef utils_cartesian_product_h
 #define utils_cartesian_product_h
 
+#include <cstddef>
+
 namespace utils
 {
 template <typename... Ts>
diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index f10cf91..32200d3 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -1,18 +1,23 @@
 #ifndef utils_common_h
 #define utils_common_h
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <climits>
 #include <cstdarg>
+#include <cstddef>
+#include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <functional>
+#include <initializer_list>
 #include <limits>
 #include <string_view>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 #include "value_list.h"
 
diff --git a/sources/include/utils/details/cxz.h b/sources/include/utils/details/cxz.h
index f477c96..14a4fa7 100644
--- a/sources/include/utils/details/cxz.h
+++ b/sources/include/utils/details/cxz.h
@@ -1,6 +1,8 @@
 #ifndef utils_details_cxz_h
 #define utils_details_cxz_h
 
+#include <type_traits>
+
 namespace utils
 {
 namespace details
diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 6514c47..61dbf26 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,8 +1,10 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <cstddef>
 #include <new>
 #include <type_traits>
+#include <utility>
 
 namespace utils
 {
diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c1dd2e9..3311f1d 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,7 +1,9 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <cstddef>
 #include <limits>
+#include <new>
 #include <type_traits>
 #include <utility>
 
diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 3d87017..79db035 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -5,7 +5,9 @@
 
 #include <algorithm>
 #include <atomic>
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 #include <functional>
diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 7b8caae..c02f146 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -1,6 +1,8 @@
 #ifndef utils_monotonic_buffer_resource_h
 #define utils_monotonic_buffer_resource_h
 
+#include <cassert>
+#include <cstddef>
 #include <functional>
 
 #include "memory.h"
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index ad2923f..d4239d9 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -3,8 +3,10 @@
 
 #include <algorithm>
 #include <bitset>
+#include <cassert>
 #include <climits>
 #include <cstddef>
+#include <cstdint>
 #include <cstdlib>
 #include <functional>
 #include <limits>
diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..01134a2 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -2,6 +2,9 @@
 #define utils_timer_h
 
 #include <chrono>
+#include <cstddef>
+#include <functional>
+#include <new>
 #include <type_traits>
 #include <utility>
 
diff --git a/sources/include/utils/value_list.h b/sources/include/utils/value_list.h
index 5247db4..a40e30b 100644
--- a/sources/include/utils/value_list.h
+++ b/sources/include/utils/value_list.h
@@ -1,6 +1,7 @@
 #ifndef utils_value_list_h
 #define utils_value_list_h
 
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
 #include <type_traits>
-- 
2.43.0


From fe2a55e712c26ad2e96335952da6b7df84b0f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 19/35] fix: timer must destroy the callable it stores

The callable was constructed in place but never destroyed, neither after the
call nor when move assignment replaced it, so what it captured leaked. Self
move assignment dropped the callback.
---
 sources/include/utils/timer.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 01134a2..478b81d 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -22,7 +22,8 @@ struct timer_impl
     using callback_ptr_t = void (*)(const Timer &) noexcept;
     using callback_ref_t = void (&)(const Timer &) noexcept;
 
-    using callback_t = void (*)(std::byte *, const Timer &) noexcept;
+    // null timer means that callback must be destroyed without being called
+    using callback_t = void (*)(std::byte *, const Timer *) noexcept;
 
     template <typename Callable>
     struct storable
@@ -39,9 +40,14 @@ struct timer_impl
 
     template <typename FinishCallback>
     static void call_finish_callback(std::byte *aData,
-                                     const Timer &aTimer) noexcept
+                                     const Timer *aTimer) noexcept
     {
-        callback<FinishCallback>(aData)(aTimer);
+        FinishCallback &finish_callback = callback<FinishCallback>(aData);
+        if (aTimer)
+        {
+            finish_callback(*aTimer);
+        }
+        finish_callback.~FinishCallback();
     }
 
     template <typename T>
@@ -84,7 +90,7 @@ class timer
     {
         if (callback_)
         {
-            std::invoke(callback_, data_, *this);
+            std::invoke(callback_, data_, this);
         }
     }
 
@@ -126,6 +132,14 @@ class timer
     timer &operator=(const timer &) = delete;
     timer &operator=(timer &&aOther) noexcept
     {
+        if (this == &aOther)
+        {
+            return *this;
+        }
+        if (callback_)
+        {
+            std::invoke(callback_, data_, nullptr);
+        }
         start_ = aOther.start_;
         callback_ = aOther.callback_;
         aOther.callback_ = nullptr;
-- 
2.43.0


From 49295681f6dc7079fa0f740bf79ac44a7f3854f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 20/35] fix: simple_resource without a block must not report a
 free region

---
 sources/include/utils/memory/simple_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index d4239d9..1a59fcc 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -284,6 +284,7 @@ class simple_resource : public memory_resource
         , block_count_(
               std::min(std::get<1>(aOriginAndBlockCount), MaxBlockCount))
         , upstream_(aUpstream)
+        , free_count_(block_count_ ? 1 : 0)
     {
     }
 
@@ -558,7 +559,7 @@ class simple_resource : public memory_resource
     memory_resource *upstream_{memory::get_default_resource()};
     block_info infos_[MaxBlockCount]{};
     std::bitset<MaxBlockCount> in_use_{};
-    std::size_t free_count_{1};
+    std::size_t free_count_{};
     std::size_t busy_count_{};
 };
 }  // namespace memory
-- 
2.43.0


From 73e41e56b87c10602a2b0eed9e762f56ce897eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 21/35] fix: is_uint and is_uint_or_byte must see through cv

---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 32200d3..e631903 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -70,7 +70,7 @@ namespace utils
 template <typename T>
 struct is_uint
     : std::conjunction<std::is_unsigned<T>,
-                       std::negation<std::is_same<T, bool>>>
+                       std::negation<std::is_same<std::remove_cv_t<T>, bool>>>
 {
 };
 
@@ -79,7 +79,8 @@ inline constexpr bool is_uint_v = is_uint<T>::value;
 
 template <typename T>
 struct is_uint_or_byte
-    : std::disjunction<is_uint<T>, std::is_same<T, std::byte>>
+    : std::disjunction<is_uint<T>,
+                       std::is_same<std::remove_cv_t<T>, std::byte>>
 {
 };
 
-- 
2.43.0


From eea9db8448285275b7128ccdd2ecd978dab8f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 22/35] fix: values_in_range must hold ranges longer than the
 positive range of its type

---
 sources/include/utils/common.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index e631903..7baeade 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -717,13 +717,13 @@ struct values_in_range
 {
    private:
     using SeqT = std::common_type_t<decltype(First), decltype(Last)>;
-    using Indices = shifted_sequence_t<
-        std::make_integer_sequence<SeqT, static_cast<SeqT>(Last + 1 - First)>,
-        static_cast<SeqT>(First)>;
+    using Indices =
+        std::make_index_sequence<static_cast<std::size_t>(Last - First) + 1>;
 
-    template <auto... I>
-    static value_list<I...> values_in_range_impl(
-        std::integer_sequence<SeqT, I...>) noexcept;
+    template <std::size_t... I>
+    static value_list<static_cast<SeqT>(static_cast<SeqT>(First) +
+                                        static_cast<SeqT>(I))...>
+    values_in_range_impl(std::index_sequence<I...>) noexcept;
 
    public:
     using type = decltype(values_in_range_impl(Indices{}));
-- 
2.43.0


From f67da092c1ac652784b59303235a77621b0b8343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 23/35] fix: make_array_from_range must not step past the end
 of its type

---
 sources/include/utils/common.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 7baeade..89fab76 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -303,8 +303,11 @@ constexpr auto make_array_from_range() noexcept
 
     auto step_count = [](auto aBegin, auto aEnd, auto aStep) constexpr
     {
-        std::size_t count{};
-        while (aBegin <= aEnd)
+        std::size_t count{1};
+        // never steps past aEnd, which may be the largest value of its type
+        while (aBegin < aEnd && static_cast<std::uintmax_t>(aEnd) -
+                                        static_cast<std::uintmax_t>(aBegin) >=
+                                    static_cast<std::uintmax_t>(aStep))
         {
             ++count;
             aBegin += aStep;
@@ -316,10 +319,13 @@ constexpr auto make_array_from_range() noexcept
 
     std::array<CommonT, kCount> result{};
     auto currentValue = Begin;
-    for (auto& v: result)
+    for (std::size_t i = 0; i < kCount; ++i)
     {
-        v = CommonT{currentValue};
-        currentValue = currentValue + Step;
+        if (i > 0)
+        {
+            currentValue = currentValue + Step;
+        }
+        result[i] = CommonT{currentValue};
     }
     return result;
 }
-- 
2.43.0


From c4297b0b6e32c09d418344484225975a0d489bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:21 +0000
Subject: [PATCH 24/35] fix: a timer can be started with a function which is
 not noexcept

---
 sources/include/utils/timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 478b81d..353c53f 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -32,7 +32,7 @@ struct timer_impl
             std::is_same_v<Callable, callback_ref_t>, callback_ptr_t,
             std::enable_if_t<
                 std::is_invocable_r_v<void, Callable, duration>,
-                std::remove_cv_t<std::remove_reference_t<Callable>>>>;
+                std::decay_t<Callable>>>;
     };
 
     template <typename Callable>
-- 
2.43.0


From ddca8edae4c2b14c3b280418ea665713eedd3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:46 +0000
Subject: [PATCH 25/35] fix: UTILS_ABORT_IF must not use the file name as part
 of a format

A percent sign in __FILE__ was taken for a conversion, which shifted the
arguments and made the call undefined.
---
 sources/include/utils/common.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 89fab76..ea3bd86 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -50,10 +50,9 @@
 #endif
 
 #ifndef UTILS_ABORT_IF
-#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)                \
-    utils::abort_if(condition,                                           \
-                    "[ERROR]\n" UTILS_FILE_LINE "\nfunc: %s" format_str, \
-                    UTILS_FUNC, __VA_ARGS__)
+#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)             \
+    utils::abort_if(condition, "[ERROR]\n%s\nfunc: %s" format_str,    \
+                    UTILS_FILE_LINE, UTILS_FUNC, __VA_ARGS__)
 #define UTILS_ABORT_IF(...) UTILS_ABORT_IF_HELPER(__VA_ARGS__, "", "")
 #else
 #error "UTILS_ABORT_IF already defined somewhere"
-- 
2.43.0


From a1acd4e37bef76b51ce843932089189a28e25db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:01 +0000
Subject: [PATCH 26/35] fix: the default resource must exist while static
 objects are initialized

A namespace-scope object which asked for the default resource could get a
null pointer: its initializer may run before that of the slot.
---
 sources/include/utils/memory/memory.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 79db035..bacb522 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -241,8 +241,13 @@ inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
-inline std::atomic<memory_resource *> default_resource =
-    system_memory_resource();
+// function so that it can be used while static objects are initialized
+inline std::atomic<memory_resource *> &default_resource() noexcept
+{
+    static std::atomic<memory_resource *> r{
+        ::utils::memory::system_memory_resource()};
+    return r;
+}
 
 class system_memory_resource : public memory_resource
 {
@@ -319,12 +324,12 @@ inline memory_resource *null_memory_resource() noexcept
 inline memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
-    return details::default_resource.exchange(aResource);
+    return details::default_resource().exchange(aResource);
 }
 
 inline memory_resource *get_default_resource() noexcept
 {
-    return details::default_resource.load();
+    return details::default_resource().load();
 }
 }  // namespace memory
 }  // namespace utils
-- 
2.43.0


From 2fd73b1e27a9209bd3915a6ee058f6843882cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:16 +0000
Subject: [PATCH 27/35] fix: is_invocable missed qualified function pointers
 and those with an ellipsis

A const or volatile (member) function pointer, and a pointer to a function
with an ellipsis, are as callable as others.
---
 sources/include/utils/function_traits.h | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/sources/include/utils/function_traits.h b/sources/include/utils/function_traits.h
index 72ba4a5..19377b3 100644
--- a/sources/include/utils/function_traits.h
+++ b/sources/include/utils/function_traits.h
@@ -510,22 +510,8 @@ using functor_signature_t = typename functor_signature<T>::type;
 
 template <typename T>
 struct is_invocable
-    : std::disjunction<std::is_function<T>, is_simple_functor<T>>
-{
-};
-
-template <typename T, typename U>
-struct is_invocable<U T::*> : std::is_function<U>
-{
-};
-
-template <typename R, typename... Args>
-struct is_invocable<R (*)(Args...)> : std::true_type
-{
-};
-
-template <typename R, typename... Args>
-struct is_invocable<R (*)(Args...) noexcept> : std::true_type
+    : std::disjunction<std::is_function<std::remove_pointer_t<T>>,
+                       std::is_member_function_pointer<T>, is_simple_functor<T>>
 {
 };
 
-- 
2.43.0


From 19ccfc5d068c514fe83f7ad21c1e64db195eb5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 28/35] fix: the timer asked whether its callback accepts a
 duration instead of a timer

A callback with a templated parameter did not compile, and neither did one
which can only be called as an lvalue.
---
 sources/include/utils/timer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 353c53f..b59de0c 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -31,7 +31,8 @@ struct timer_impl
         using type = std::conditional_t<
             std::is_same_v<Callable, callback_ref_t>, callback_ptr_t,
             std::enable_if_t<
-                std::is_invocable_r_v<void, Callable, duration>,
+                std::is_invocable_r_v<void, std::decay_t<Callable> &,
+                                      const Timer &>,
                 std::decay_t<Callable>>>;
     };
 
@@ -108,7 +109,8 @@ class timer
         using callback_ref_t = typename impl::callback_ref_t;
         static_assert(alignof(stored_callback_t) <= MaxCallbackAlignment);
         static_assert(sizeof(stored_callback_t) <= MaxCallbackSize);
-        static_assert(std::is_invocable_r_v<void, FinishCallback, duration>);
+        static_assert(
+            std::is_invocable_r_v<void, stored_callback_t &, const timer &>);
         if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
         {
             new (&impl::template callback<stored_callback_t>(data_))
-- 
2.43.0


From 136cad4999181242775af7dea19c014a0b5377e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:30 +0000
Subject: [PATCH 29/35] fix: moving a timer copied the bytes of its callable

A callable which is not trivially relocatable, for example one which registers
its address, was broken by a move of the timer.
---
 sources/include/utils/timer.h | 49 +++++++++++++++++------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index b59de0c..a61dc42 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -22,8 +22,11 @@ struct timer_impl
     using callback_ptr_t = void (*)(const Timer &) noexcept;
     using callback_ref_t = void (&)(const Timer &) noexcept;
 
-    // null timer means that callback must be destroyed without being called
-    using callback_t = void (*)(std::byte *, const Timer *) noexcept;
+    // callable in the first argument is moved to the second one if it's not
+    // null, otherwise it's called with the timer if that's not null; in any
+    // case it's destroyed afterwards
+    using callback_t = void (*)(std::byte *, std::byte *,
+                                const Timer *) noexcept;
 
     template <typename Callable>
     struct storable
@@ -40,11 +43,15 @@ struct timer_impl
     using storable_t = typename storable<Callable>::type;
 
     template <typename FinishCallback>
-    static void call_finish_callback(std::byte *aData,
+    static void call_finish_callback(std::byte *aData, std::byte *aDst,
                                      const Timer *aTimer) noexcept
     {
         FinishCallback &finish_callback = callback<FinishCallback>(aData);
-        if (aTimer)
+        if (aDst)
+        {
+            new (aDst) FinishCallback(std::move_if_noexcept(finish_callback));
+        }
+        else if (aTimer)
         {
             finish_callback(*aTimer);
         }
@@ -56,21 +63,6 @@ struct timer_impl
     {
         return *reinterpret_cast<T *>(aData);
     }
-
-    template <std::size_t... I>
-    static constexpr void copy_impl(std::byte (&aDst)[sizeof...(I)],
-                                    std::byte (&aSrc)[sizeof...(I)],
-                                    std::index_sequence<I...>) noexcept
-    {
-        (..., (aDst[I] = aSrc[I]));
-    }
-
-    template <std::size_t Size>
-    static constexpr void copy(std::byte (&aDst)[Size],
-                               std::byte (&aSrc)[Size]) noexcept
-    {
-        copy_impl(aDst, aSrc, std::make_index_sequence<Size>{});
-    }
 };
 
 template <std::size_t MaxCallbackAlignment, std::size_t MaxCallbackSize,
@@ -91,7 +83,7 @@ class timer
     {
         if (callback_)
         {
-            std::invoke(callback_, data_, this);
+            std::invoke(callback_, data_, nullptr, this);
         }
     }
 
@@ -128,8 +120,7 @@ class timer
     timer(timer &&aOther) noexcept
         : start_(aOther.start_), callback_(aOther.callback_)
     {
-        impl::template copy(data_, aOther.data_);
-        aOther.callback_ = nullptr;
+        take_callable(aOther);
     }
     timer &operator=(const timer &) = delete;
     timer &operator=(timer &&aOther) noexcept
@@ -140,12 +131,11 @@ class timer
         }
         if (callback_)
         {
-            std::invoke(callback_, data_, nullptr);
+            std::invoke(callback_, data_, nullptr, nullptr);
         }
         start_ = aOther.start_;
         callback_ = aOther.callback_;
-        aOther.callback_ = nullptr;
-        impl::template copy(data_, aOther.data_);
+        take_callable(aOther);
         return *this;
     }
 
@@ -176,6 +166,15 @@ class timer
     void reset() noexcept { start_ = clock::now(); }
 
    private:
+    void take_callable(timer &aOther) noexcept
+    {
+        if (callback_)
+        {
+            std::invoke(callback_, aOther.data_, data_, nullptr);
+            aOther.callback_ = nullptr;
+        }
+    }
+
     time_point start_ = clock::now();
     typename impl::callback_t callback_{};
     alignas(MaxCallbackAlignment) std::byte data_[MaxCallbackSize]{};
-- 
2.43.0


From 254aaf15bf6bd8665a24b043d76b1b648c35dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:47 +0000
Subject: [PATCH 30/35] fix: types for more than 31 bytes are refused, gcc
 wrapped the number of bits

---
 sources/include/utils/common.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index ea3bd86..083ed38 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -518,8 +518,13 @@ struct uint_from_nbits
 template <uint8_t BitsCount>
 using uint_from_nbits_t = typename uint_from_nbits<BitsCount>::type;
 
+// more bytes than the widest type has are refused; their number of bits may not
+// fit uint8_t, and gcc wraps it silently here
 template <uint8_t BytesCount>
-using uint_from_nbytes_t = uint_from_nbits_t<BytesCount * CHAR_BIT>;
+using uint_from_nbytes_t =
+    uint_from_nbits_t<(BytesCount <= sizeof(uint64_t))
+                          ? BytesCount * CHAR_BIT
+                          : std::numeric_limits<uint8_t>::max()>;
 
 template <typename T>
 struct enum_properties
@@ -572,7 +577,10 @@ using fast_uint_from_nbits_t = typename fast_uint_from_nbits<BitsCount>::type;
 
 template <uint8_t BytesCount>
 using fast_uint_from_nbytes_t =
-    typename fast_uint_from_nbits<BytesCount * CHAR_BIT>::type;
+    typename fast_uint_from_nbits<(BytesCount <= sizeof(uint64_t))
+                                      ? BytesCount * CHAR_BIT
+                                      : std::numeric_limits<uint8_t>::max()>::
+        type;
 
 template <typename T>
 constexpr std::size_t num_bits()
-- 
2.43.0


From 3d224078610984b9d9f4d464692bbaecf02aeb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 31/35] fix: a pool of one block did not compile

---
 sources/include/utils/memory/simple_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 1a59fcc..bcdde2c 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -149,7 +149,8 @@ class simple_resource : public memory_resource
    public:
     friend class memory_resource;
 
-    using BIndex = uint_from_nbits_t<bits_count(MaxBlockCount - 1)>;
+    using BIndex = uint_from_nbits_t<std::max<std::size_t>(
+        bits_count(MaxBlockCount - 1), 1)>;
     struct block_info
     {
         friend class simple_resource;
-- 
2.43.0


From 4161c86f9ba5404df7cfb78051fb9720d1b9b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 32/35] fix: padding of empty classes and of classes with empty
 members did not compile

---
 sources/include/utils/padding_checker.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/padding_checker.h b/sources/include/utils/padding_checker.h
index 9855444..14b2ada 100644
--- a/sources/include/utils/padding_checker.h
+++ b/sources/include/utils/padding_checker.h
@@ -17,9 +17,10 @@ struct sum_size_of_all_members;
 template <typename T, std::size_t... I>
 std::integral_constant<
     std::size_t,
-    (... + sum_size_of_all_members<
-               pfr::tuple_element_t<I, T>,
-               std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
+    (std::size_t{0} + ... +
+     sum_size_of_all_members<
+         pfr::tuple_element_t<I, T>,
+         std::is_aggregate_v<pfr::tuple_element_t<I, T>>>::value)>
     sum(std::index_sequence<I...>);
 
 template <typename T, bool IsAggregate>
-- 
2.43.0


From 8f708c7954f3a5b0738861161b7c67581cfcf4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 33/35] fix: types with their own address or placement operator
 were constructed outside the holder

---
 sources/include/utils/fast_pimpl.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 61dbf26..7506bf3 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -2,6 +2,7 @@
 #define utils_fast_pimpl_h
 
 #include <cstddef>
+#include <memory>
 #include <new>
 #include <type_traits>
 #include <utility>
@@ -24,37 +25,37 @@ class fast_pimpl final
 
     fast_pimpl() noexcept(std::is_nothrow_constructible_v<T>)
     {
-        new (&get()) T();
+        ::new (static_cast<void *>(data_)) T();
     }
 
     template <typename... Args>
     explicit fast_pimpl(forwarding_constructor, Args &&...args) noexcept(
         std::is_nothrow_constructible_v<T, Args...>)
     {
-        new (&get()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void *>(data_)) T(std::forward<Args>(args)...);
     }
 
     fast_pimpl(const fast_pimpl &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther.get());
+        ::new (static_cast<void *>(data_)) T(aOther.get());
     }
 
     fast_pimpl(const T &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther);
+        ::new (static_cast<void *>(data_)) T(aOther);
     }
 
     fast_pimpl(fast_pimpl &&aOther) noexcept(
         std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther.get()));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther.get()));
     }
 
     fast_pimpl(T &&aOther) noexcept(std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther));
     }
 
     fast_pimpl &operator=(const fast_pimpl &aOther) noexcept(
@@ -85,9 +86,9 @@ class fast_pimpl final
         return *this;
     }
 
-    T *operator->() noexcept { return &get(); }
+    T *operator->() noexcept { return std::addressof(get()); }
 
-    const T *operator->() const noexcept { return &get(); }
+    const T *operator->() const noexcept { return std::addressof(get()); }
 
     template <std::size_t ActualSize, std::size_t ActualAlignment>
     static void validate() noexcept
-- 
2.43.0


From 62b2a11f28c57c7a0e372f8e6ed6f8aede2210f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 34/35] fix: types with their own placement operator were
 constructed outside the allocated memory

---
 sources/include/utils/memory/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 3311f1d..67b2763 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -45,7 +45,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<Args>(aArgs)...);
+        ::new (static_cast<void*>(aPtr)) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
-- 
2.43.0


From f403d29c76ea2a3dde63dff7d74df6d7d3825fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 35/35] fix: callables with their own operator new could not be
 stored in a timer

---
 sources/include/utils/timer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index a61dc42..e156081 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -49,7 +49,8 @@ struct timer_impl
         FinishCallback &finish_callback = callback<FinishCallback>(aData);
         if (aDst)
         {
-            new (aDst) FinishCallback(std::move_if_noexcept(finish_callback));
+            ::new (static_cast<void *>(aDst))
+                FinishCallback(std::move_if_noexcept(finish_callback));
         }
         else if (aTimer)
         {
@@ -105,12 +106,11 @@ class timer
             std::is_invocable_r_v<void, stored_callback_t &, const timer &>);
         if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
         {
-            new (&impl::template callback<stored_callback_t>(data_))
-                stored_callback_t(aCallback);
+            ::new (static_cast<void *>(data_)) stored_callback_t(aCallback);
         }
         else
         {
-            new (&impl::template callback<stored_callback_t>(data_))
+            ::new (static_cast<void *>(data_))
                 stored_callback_t(std::forward<FinishCallback>(aCallback));
         }
     }
-- 
2.43.0

